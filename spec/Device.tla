------------------------------ MODULE Device -------------------------------
(* Serial ports on devices with a queue of received bytes and line settings, *)
(* timers of blocks, sleeping, and exceptions.                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Bauds == {9600, 19200, 38400, 57600, 115200, 230400}
\* settings of a line: speed, bits, parity (0 none, 1 odd, 2 even), stop bits, VTIME, VMIN
Line(baud, bits, par, stop, vt, vm) == <<baud, bits, par, stop, vt, vm>>
Orig(d) == Line(IF d = 1 THEN 4800 ELSE 2400, 8, 0, d, 7, 9)
\* a device: whether it is there, its settings, the bytes received and not yet read
NewDev(d) == [up |-> TRUE, set |-> Orig(d), in |-> <<>>]
\* a port: whether it exists, its device (3: no such file, 4: no terminal), its parameters, whether it is open; what the settings were before; open on a device that went away
NoPort == [ex |-> FALSE, d |-> 0, baud |-> 0, bits |-> 8, par |-> 0, stop |-> 1, open |-> FALSE, was |-> <<>>]
MkPort(d, baud, bits, par, stop) == [ex |-> TRUE, d |-> d, baud |-> baud, bits |-> bits, par |-> par, stop |-> stop, open |-> FALSE, was |-> <<>>]
CanOpen(s, p) == s.port[p].baud \in Bauds /\ s.port[p].d \in 1..2 /\ s.dev[s.port[p].d].up
\* number of bits that are not 5 to 7 are 8
Bits(b) == IF b \in 5..7 THEN b ELSE 8
Open(s, p, vt, vm) ==
  LET q == s.port[p] IN
  IF q.open \/ ~CanOpen(s, p) THEN s
  ELSE [s EXCEPT !.port[p].open = TRUE, !.port[p].was = s.dev[q.d].set, !.dev[q.d].set = Line(q.baud, Bits(q.bits), q.par, q.stop, vt, vm)]
OpenOk(s, p) == s.port[p].open \/ CanOpen(s, p)
Close(s, p) == LET q == s.port[p] IN
  IF ~q.open THEN s ELSE IF s.dev[q.d].up THEN [s EXCEPT !.port[p].open = FALSE, !.dev[q.d].set = q.was] ELSE [s EXCEPT !.port[p].open = FALSE]
Make(s, p, d, baud, bits, par, stop) == [Close(s, p) EXCEPT !.port[p] = MkPort(d, baud, bits, par, stop)]
Unmake(s, p) == [Close(s, p) EXCEPT !.port[p] = NoPort]
Receive(s, d, b) == [s EXCEPT !.dev[d].in = @ \o b]
Min2(a, b) == IF a < b THEN a ELSE b
Got(s, p, n) == LET q == s.dev[s.port[p].d].in IN SubSeq(q, 1, Min2(n, Len(q)))
Read(s, p, n) == [s EXCEPT !.dev[s.port[p].d].in = SubSeq(@, Min2(n, Len(@)) + 1, Len(@))]
Flush(s, p) == [s EXCEPT !.dev[s.port[p].d].in = <<>>]
GoneDev(s, d) == [s EXCEPT !.dev[d].up = FALSE, !.dev[d].in = <<>>]
Live(s, p) == s.port[p].open /\ s.dev[s.port[p].d].up
Fds(s) == Cardinality({p \in DOMAIN s.port : s.port[p].open})
=============================================================================
