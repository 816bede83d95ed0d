----------------------------- MODULE DeviceGen -----------------------------
(* Three ports on two pseudo terminals, two timers, sleeping, exceptions. The *)
(* open descriptors, settings and waiting bytes are looked at after each step. *)
EXTENDS Device, Gen
VARIABLES s, tm
dvars == <<hist, emitted, s, tm>>
R(lo, hi) == RandomElement(lo..hi)
RI(W, h) == RandomElement(W)
B(x) == IF x THEN 1 ELSE 0
PP == 1..3
Tell(t) == <<Fds(t)>> \o FlattenSeq([d \in 1..2 |-> IF t.dev[d].up THEN t.dev[d].set \o <<1, Len(t.dev[d].in)>> ELSE <<-1>>])
Step(op, args, pre, t) == s' = t /\ UNCHANGED tm /\ Record(op, args, pre \o Tell(t))
Bytes(n, h) == TLCEval([i \in 1..n |-> RI(0..255, <<h, i>>)])
DoNew == \E p \in {RI(PP, hist)}, d \in {RI({1, 1, 1, 2, 2, 3, 4}, hist)}, b \in {RI(Bauds, hist)}, o \in {R(1, 8)}, bits \in {R(5, 8)}, par \in {R(0, 2)}, st \in {R(1, 2)} :
         \E baud \in {IF o = 1 THEN RI({0, 1200, 9601, 115201}, hist) ELSE b} : Step("new", <<p, d, baud, bits, par, st>>, <<baud>>, Make(s, p, d, baud, bits, par, st))
Pp == {p \in PP : s.port[p].ex}
Open1 == {p \in PP : s.port[p].open}
\* mostly an open port
Some(h) == IF Open1 # {} /\ R(1, 5) > 1 THEN RI(Open1, h) ELSE RI(Pp, h)
DoOpen == \E p \in {RI(Pp, hist)}, vt \in {RI({0, 0, 0, 1}, hist)}, vm \in {RI({0, 0, 1}, hist)} : Step("open", <<p, vt, vm>>, <<IF OpenOk(s, p) THEN 0 ELSE -1>>, Open(s, p, vt, vm))
DoOpenD == \E p \in {RI(Pp, hist)} : Step("opend", <<p>>, <<IF OpenOk(s, p) THEN 0 ELSE -1>>, Open(s, p, 5, 0))
DoClose == \E p \in {Some(hist)} : Step("close", <<p>>, <<0>>, Close(s, p))
DoDrop == \E p \in {Some(hist)} : Step("drop", <<p>>, <<0>>, Unmake(s, p))
DoIn == \E d \in {R(1, 2)} : IF ~s.dev[d].up \/ Len(s.dev[d].in) > 300 THEN DoNew ELSE \E n \in {RI({1, 2, 3, 10, 100}, hist)} : \E b \in {Bytes(n, hist)} : Step("in", <<d, n>> \o b, <<>>, Receive(s, d, b))
\* a read that would wait for ever is not asked for
Waits(p) == Live(s, p) /\ s.dev[s.port[p].d].in = <<>> /\ s.dev[s.port[p].d].set[6] > 0
\* nor one for fewer bytes than the settings wait for
DoRead == \E p \in {Some(hist)}, n \in {RI({1, 2, 5, 20, 1000}, hist)} :
          IF Waits(p) \/ (Live(s, p) /\ s.dev[s.port[p].d].set[6] > 1) THEN DoIn
          ELSE IF ~s.port[p].open THEN Step("read", <<p, n>>, <<-1>>, s)
          ELSE IF ~Live(s, p) THEN Step("read", <<p, n>>, <<0, 0>>, s)
          ELSE \E g \in {Got(s, p, n)} : Step("read", <<p, n>>, <<0, Len(g)>> \o g, Read(s, p, n))
DoSend == \E p \in {Some(hist)}, n \in {RI({1, 2, 10, 200}, hist)} : \E b \in {Bytes(n, hist)} :
          Step("send", <<p, s.port[p].d, n>> \o b, IF ~Live(s, p) THEN <<-1>> ELSE <<0, n>> \o b, s)
DoAvail == \E p \in {Some(hist)} : Step("avail", <<p>>, IF ~Live(s, p) THEN <<-1>> ELSE <<0, Len(s.dev[s.port[p].d].in)>>, s)
DoFlush == \E p \in {Some(hist)} : Step("flush", <<p>>, IF ~s.port[p].open THEN <<-1>> ELSE <<0>>, IF Live(s, p) THEN Flush(s, p) ELSE s)
DoBreak == \E p \in {Some(hist)} : Step("brk", <<p>>, IF ~s.port[p].open THEN <<-1>> ELSE <<0>>, s)
DoGone == \E d \in {R(1, 2)} : IF ~s.dev[d].up \/ R(1, 3) > 1 THEN DoNew ELSE Step("gone", <<d>>, <<>>, GoneDev(s, d))
\* ---- timers: runs, ticks, whether the ticks are known, whether a place in the code is known, whether it logs
NoTimer == [ex |-> FALSE, runs |-> 0, ticks |-> 0, known |-> TRUE, place |-> 0, done |-> FALSE, log |-> 0]
Nx(n, d) == [n |-> n, d |-> d]
\* a timer that ran tells so when it goes: name, runs and place in the code
Said(t) == IF t.ex /\ t.log > 0 /\ t.runs > 0 THEN <<1, 1, t.place>> ELSE <<0, 0, 0>>
TStep(op, args, exp, t) == tm' = t /\ UNCHANGED s /\ Record(op, args, exp)
DoTNew == \E t \in {R(1, 2)}, l \in {R(0, 2)} : TStep("tnew", <<t, l>>, Said(tm[t]), [tm EXCEPT ![t] = [NoTimer EXCEPT !.ex = TRUE, !.log = l]])
Tell1(t) == <<t.runs>> \o (IF t.known THEN <<Nx(t.ticks, 1000)>> \o (IF t.runs > 0 THEN <<Nx(t.ticks, 1000 * t.runs)>> ELSE <<>>) ELSE <<>>)
Ask(t) == B(t.known) + B(t.known /\ t.runs > 0)
DoTAdd == \E t \in {R(1, 2)}, n \in {RI({0, 1, 999, 1000, 123456, 20000000}, hist)} : IF ~tm[t].ex \/ tm[t].ticks > 900000000 THEN DoTNew
          ELSE \E u \in {[tm[t] EXCEPT !.runs = @ + 1, !.ticks = @ + n]} : TStep("tadd", <<t, n, Ask(u)>>, Tell1(u), [tm EXCEPT ![t] = u])
\* a block: left by its end or by an exception, with or without its place in the code; the place of the first counts
DoTRun == \E t \in {R(1, 2)}, w \in {R(1, 4)}, line \in {R(1, 500)}, ms \in {R(0, 2)} : IF ~tm[t].ex THEN DoTNew
          ELSE TStep("trun", <<t, w, line, ms>>, <<tm[t].runs + 1, 1>>, [tm EXCEPT ![t] = [@ EXCEPT !.runs = @ + 1, !.known = FALSE, !.done = TRUE, !.place = IF w >= 3 /\ ~tm[t].done THEN line ELSE @]])
DoSleep == \E w \in {R(1, 40)} : \E q \in {CASE w = 1 -> <<999, 2000000>> [] w = 2 -> <<0, 1000000000>> [] w <= 10 -> <<2, 0>> [] w <= 20 -> <<0, 3000000>> [] w <= 30 -> <<1, 500000>> [] OTHER -> <<0, 0>>} : TStep("sleep", q, <<1>>, tm)
Msgs == <<"", "m", "no such thing", "100% wrong", "two\nlines">>
Files == <<"", "a.cpp", "src/b c.h">>
\* file 0: none given
DoExc == \E m \in {R(1, 5)}, f \in {R(0, 3)}, n \in {RI({0, 1, 77, 100000}, hist)}, l \in {R(0, 1)} : \E file \in {IF f = 0 THEN "" ELSE Files[f]} :
         TStep("exc", <<Msgs[m], B(f > 0), file, n, l>>, <<Msgs[m], n, file, 1, l, 1>>, tm)
DoThrow == \E m \in {R(1, 5)} : TStep("throw", <<Msgs[m]>>, <<Msgs[m], 1, 1>>, tm)
GInit == GenStart /\ s = [port |-> [p \in PP |-> NoPort], dev |-> [d \in 1..2 |-> NewDev(d)]] /\ tm = [t \in 1..2 |-> NoTimer]
GNext == IF ~More THEN Finish /\ UNCHANGED <<s, tm>>
         ELSE IF Pp = {} THEN DoNew
         ELSE \E k \in {R(1, 44)} : CASE k <= 5 -> DoNew [] k <= 11 -> DoOpen [] k = 12 -> DoOpenD [] k <= 15 -> DoClose [] k = 16 -> DoDrop [] k <= 21 -> DoIn [] k <= 25 -> DoRead [] k <= 29 -> DoSend
                                      [] k <= 31 -> DoAvail [] k = 32 -> DoFlush [] k = 33 -> DoBreak [] k = 34 -> DoGone [] k <= 36 -> DoTNew [] k <= 39 -> DoTAdd [] k <= 41 -> DoTRun [] k = 42 -> DoSleep [] k = 43 -> DoExc [] OTHER -> DoThrow
GSpec == GInit /\ [][GNext]_dvars
=============================================================================
