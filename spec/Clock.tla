------------------------------- MODULE Clock -------------------------------
(* Synchronisation of a sensor clock to the local clock.                    *)
(* The sensor clock counts exact ticks; every event pairs a tick count with *)
(* the local time at which it was noticed. "off" is by how much (in micro-  *)
(* seconds) the noticed local time deviates from the exact one.             *)
(* An estimator is "clean" as long as it has only ever accepted exact       *)
(* events: it then converts exactly, whatever the spacing of events.        *)
(* After a settling period isolated deviations are set aside: a budget of   *)
(* tolerance is earned by good events and spent by bad ones; once it is     *)
(* used up, deviating events are accepted, so a persistent shift is         *)
(* followed.                                                                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Kind,       \* "kf" (filter) or "ls" (least squares)
          StartNeg,   \* initial budget is -StartNeg: -100 for the filter, 0 for least squares
          Trust,      \* events before deviations may be set aside: 0 / 100
          Echo,       \* events whose local time is returned as it came: 1 / 11
          Cap, Bad,   \* the budget never exceeds Cap; a deviation costs Bad
          MaxN
Start == -StartNeg
VARIABLES n, budget, clean
vars == <<n, budget, clean>>
Init == n = 0 /\ budget = Start /\ clean = TRUE
Min(a, b) == IF a < b THEN a ELSE b
Accept == n < Trust \/ budget < 0
Earn == Min(Cap, budget + 1)
\* an exact event: always accepted by a clean estimator
Good == /\ n < MaxN /\ n' = n + 1 /\ budget' = Earn /\ UNCHANGED clean
\* a deviating event (never the first: that one defines the origin)
Deviate == /\ n > 0 /\ n < MaxN /\ n' = n + 1
           /\ IF Accept THEN budget' = Earn /\ clean' = FALSE
                        ELSE budget' = budget - Bad /\ UNCHANGED clean
Next == Good \/ Deviate
Spec == Init /\ [][Next]_vars
TypeOK == /\ n \in 0..MaxN /\ budget <= Cap /\ budget >= Start - 2
          /\ budget >= -(IF Start < 0 THEN -Start ELSE 0) - Bad
\* deviations are tolerated at most (Cap \div Bad) + 1 times in a row, then accepted
Followed == [][(Accept /\ ~Accept') => budget' >= 0]_vars
\* a settled, clean estimator is not disturbed by an isolated deviation
Undisturbed == [][(n >= Trust /\ budget >= 0 /\ clean) => clean']_vars
=============================================================================
