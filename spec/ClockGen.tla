----------------------------- MODULE ClockGen -----------------------------
EXTENDS Clock, Gen
Steps == {1, 2, 3, 10, 17, 250}
Offs  == {5000, -5000, 12345, 700000, -900000, 30000000}
\* exact rates: nominal ticks per second; the residual tolerance is in nanoseconds
Rates == {<<1000, 0>>, <<1000000, 0>>, <<100, 0>>, <<44100, 1>>, <<30, 1>>, <<32768, 1>>}
VARIABLE rate
Tol(r) == IF r[2] = 0 THEN 1 ELSE 2000
Slack == IF Kind = "ls" THEN 2000 ELSE Tol(rate)     \* least squares works in floating point throughout
Runs == {1, 1, 1, 3, 8, 20, 40, 97}
\* an exact run of k events; expected: number of events so far, deviation of the last result from the exact local time
GoodRun(k) == /\ n + k <= MaxN
              /\ n' = n + k /\ budget' = Min(Cap, budget + k) /\ UNCHANGED clean
DoGood == \E k \in {RandomElement({1, 2, 3, 8, 20, 60, 101})} : \E d \in {RandomElement(Steps)} :
            /\ GoodRun(k)
            /\ Record("good", <<k, d>>, <<n + k, IF clean THEN [rng |-> <<-Slack, Slack>>] ELSE [any |-> 1]>>)
            /\ UNCHANGED rate
\* the first Echo events (least squares) are handed back unchanged
DoBad == \E d \in {RandomElement(Steps)} : \E o \in {RandomElement(Offs)} :
            /\ n > 0 /\ Deviate
            /\ Record("bad", <<d, o>>, <<n + 1, IF ~clean THEN [any |-> 1]
                   ELSE IF Kind = "ls" THEN (IF n < Echo THEN [rng |-> <<o - 2, o + 2>>] ELSE [rng |-> <<-Slack, Slack>>])
                   ELSE IF clean' THEN [rng |-> <<-Slack, Slack>>]
                   ELSE [any |-> 1]>>)
            /\ UNCHANGED rate
DoStart == /\ n = 0 /\ hist = <<>>
           /\ \E r \in {RandomElement(Rates)} : \E b \in {RandomElement(0..4)} :
                rate' = r /\ Record("start", <<Kind, r[1], b>>, <<0>>)
           /\ UNCHANGED vars
GenNext == \/ More /\ hist = <<>> /\ DoStart
           \/ /\ More /\ hist # <<>>
              /\ \E c \in {RandomElement(1..5)} : IF c = 1 /\ n > 0 /\ (clean => ~Accept \/ RandomElement(1..4) = 1) THEN DoBad ELSE DoGood
           \/ ~More /\ Finish /\ UNCHANGED <<vars, rate>>
GenSpec == Init /\ GenStart /\ rate = <<1000, 0>> /\ [][GenNext]_<<vars, rate, hist, emitted>>
=============================================================================
