--------------------------- MODULE ClockShiftGen ---------------------------
(* Settling: a clock whose rate differs from the nominal one, and a         *)
(* persistent shift of the local clock, are both followed in the end.       *)
EXTENDS Integers, Sequences, TLC, Gen
VARIABLE phase
R(S) == RandomElement(S)
Start == \E f \in {R({100, 1000, 30, 1000000})} : \E ppm \in {R({0, 50, -200, 5000, -20000, 100000, -300000})} : \E b \in {R(0..4)} :
           Record("drift", <<f, ppm, b>>, <<0>>)
Abs(x) == IF x < 0 THEN -x ELSE x
\* a shift (microseconds) is followed to within 2 percent, plus 100 microseconds; the result is in nanoseconds
Bound == LET h == SelectSeq(hist, LAMBDA e : e.op = "shift") RECURSIVE B(_)
             B(q) == IF q = <<>> THEN 100000 ELSE Abs(Head(q).args[1]) * 20 + B(Tail(q)) IN B(h)
Count == LET RECURSIVE C(_) 
             C(h) == IF h = <<>> THEN 0 ELSE (IF Head(h).op \in {"settle"} THEN Head(h).args[1] ELSE IF Head(h).op = "now" THEN 0 ELSE 0) + C(Tail(h))
         IN C(hist)
Settle == \E k \in {IF Count = 0 THEN R({5000, 6001}) ELSE R({2000, 2000, 5000})} : \E d \in {R({1, 2})} :
           Record("settle", <<k, d>>, <<Count + k, [rng |-> <<-Bound, Bound>>]>>)
Shift == \E o \in {R({500000, -1000000, 20000, -30000, 3000000})} : Record("shift", <<o>>, <<Count>>)
Now == Record("now", <<>>, <<1>>)
GenNext == \/ More /\ phase = 0 /\ Start /\ phase' = 1
           \/ More /\ phase = 1 /\ Settle /\ phase' = 2
           \/ More /\ phase = 2 /\ (IF R(1..3) = 1 THEN Now /\ UNCHANGED phase ELSE Shift /\ phase' = 1)
           \/ ~More /\ Finish /\ UNCHANGED phase
GenSpec == GenStart /\ phase = 0 /\ [][GenNext]_<<phase, hist, emitted>>
=============================================================================
