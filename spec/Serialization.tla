--------------------------- MODULE Serialization ---------------------------
(* Message streams: values of typed payloads, plain or as time-stamped      *)
(* measurements, are written to a stream in one of several formats, carried *)
(* over in pieces, and read back. A stream is a queue: what is read is what *)
(* was written, in order, whatever the pieces.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NS,        \* number of streams
          NV,        \* payload values 1..NV per type (0 = the empty measurement)
          NT,        \* timestamps 0..NT-1
          Types,     \* payload types
          Formats,   \* formats in use
          MaxMsgs    \* messages per stream

VARIABLES st         \* [streams -> stream record]
vars == <<st>>

Streams == 1..NS
Framed   == {"msgpack", "msgpackzone", "protomsgpack"}   \* self-delimiting formats: can be read while being written, in pieces
Archives == {"text", "binary", "prototext", "protobinary"}  \* read once the writer has finished

\* number of top-level elements of the framed representation of a type (0: not an array)
Width(t) == CASE t = "V2" -> 2 [] t = "V3" -> 3 [] t = "V4" -> 4 [] t = "V8" -> 8 [] t = "F3" -> 3
              [] t = "Q" -> 4 [] t = "M33" -> 9 [] t = "M34" -> 12 [] t = "M44" -> 16 [] t = "M66" -> 36
              [] t = "M23" -> 6 [] t = "M43" -> 12
              [] t = "RV" -> 3 [] t = "K" -> 6 [] t = "EP" -> 3 [] t = "P" -> 2 [] OTHER -> 0
\* the arrays whose elements are plain numbers
FlatTypes == {"V2", "V3", "V4", "V8", "Q", "M33", "M34", "M44", "M66", "M23", "M43", "RV"}

Closed == [fmt |-> "", msgs |-> <<>>, done |-> FALSE, feed |-> 0, part |-> 0, pos |-> 0, got |-> <<>>]
Init == st = [s \in Streams |-> Closed]

Msg(t, m, tm, v) == [t |-> t, m |-> m, tm |-> tm, v |-> v]
\* an empty measurement has no payload to represent: framed formats carry it as "nothing" and it is
\* read back empty and invalid; archives refuse it
Refused(fmt, v) == v = 0 /\ fmt \in Archives
Seen(x) == IF x.v = 0 THEN [t |-> x.t, m |-> x.m, tm |-> 0, v |-> 0] ELSE x

Open(s, f) == st' = [st EXCEPT ![s] = [Closed EXCEPT !.fmt = f]]
Write(s, x) == LET r == st[s] IN
   /\ r.fmt # "" /\ ~r.done
   /\ st' = IF Refused(r.fmt, x.v) THEN [st EXCEPT ![s] = Closed]      \* an archive that refused a value is abandoned
             ELSE [st EXCEPT ![s].msgs = Append(@, x)]
\* the writer of an archive finishes; everything is handed over
Finish_(s) == /\ st[s].fmt \in Archives /\ ~st[s].done
              /\ st' = [st EXCEPT ![s].done = TRUE, ![s].feed = Len(st[s].msgs)]
\* bytes up to the end of message k, plus a proper part of message k+1 if p = 1, have been carried over
Feed(s, k, p) == LET r == st[s] IN
   /\ r.fmt \in Framed /\ k \in r.feed..Len(r.msgs) /\ (k = r.feed => p = 1 /\ r.part = 0)
   /\ (p = 1 => k < Len(r.msgs))
   /\ st' = [st EXCEPT ![s].feed = k, ![s].part = p]
CanRead(r) == r.fmt # "" /\ (r.fmt \in Archives => r.done)
Underflow(r) == r.pos >= r.feed
Read(s) == LET r == st[s] IN
   /\ CanRead(r) /\ ~Underflow(r)
   /\ st' = [st EXCEPT ![s].pos = @ + 1, ![s].got = Append(@, Seen(r.msgs[r.pos + 1]))]
\* nothing more to read: the reader is told, or at least its variable is left alone
ReadNone(s) == /\ CanRead(st[s]) /\ Underflow(st[s]) /\ UNCHANGED vars
\* reading a flat array as one of another width is refused; the message is gone
ReadWrong(s, t) == LET r == st[s] IN
   /\ r.fmt \in Framed /\ ~Underflow(r)
   /\ LET x == r.msgs[r.pos + 1] IN x.m = 0 /\ x.t \in FlatTypes /\ t \in FlatTypes /\ Width(t) # Width(x.t)
   /\ st' = [st EXCEPT ![s].pos = @ + 1, ![s].got = Append(@, Msg("", 0, 0, 0))]

WritableMsgs == {Msg(t, 0, 0, v) : t \in Types, v \in 1..NV} \cup {Msg(t, 1, tm, v) : t \in Types, tm \in 0..(NT - 1), v \in 0..NV}

Next == \E s \in Streams :
  \/ \E f \in Formats : st[s].fmt = "" /\ Open(s, f)
  \/ \E x \in WritableMsgs : Len(st[s].msgs) < MaxMsgs /\ Write(s, x)
  \/ Finish_(s)
  \/ \E k \in 0..MaxMsgs, p \in 0..1 : Feed(s, k, p)
  \/ Read(s) \/ ReadNone(s)
  \/ \E t \in Types : ReadWrong(s, t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == \A s \in Streams : LET r == st[s] IN r.pos <= r.feed /\ r.feed <= Len(r.msgs) /\ r.part \in 0..1
\* FIFO, nothing invented, nothing lost, nothing altered
Fifo == \A s \in Streams : LET r == st[s] IN
          /\ Len(r.got) = r.pos
          /\ \A i \in 1..r.pos : r.got[i] = Seen(r.msgs[i]) \/ r.got[i].t = ""
\* a read consumes exactly one message; no action touches two streams; what was written stays
Exactly == [][\A s \in Streams : /\ st'[s].pos <= st[s].pos + 1
                                 /\ (st'[s] # st[s] => \A z \in Streams \ {s} : st'[z] = st[z])
                                 /\ (st[s].fmt = st'[s].fmt /\ st'[s] # Closed => SubSeq(st'[s].msgs, 1, Len(st[s].msgs)) = st[s].msgs)]_vars
=============================================================================
