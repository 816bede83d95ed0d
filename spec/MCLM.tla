--------------------------------- MODULE MCLM ---------------------------------
EXTENDS LM
VARIABLES s, seen
vars == <<s, seen>>
Init == \E d \in -3..3, j \in {1, -2} : s = LmInit(0, d, j) /\ seen = <<d>>
Next == s.it < 4 /\ \E v \in (-3..3) \cup {Nan}, j \in {1, -2} : s' = LmStep(s, v, j, 0) /\ seen' = Append(seen, v)
Spec == Init /\ [][Next]_vars
\* the error kept is the smallest of all seen, and it belongs to the parameters kept
Least == \A i \in 1..Len(seen) : seen[i] # Nan => Abs(s.d) <= Abs(seen[i])
Belongs == \E i \in 1..Len(seen) : seen[i] = s.d /\ s.asked[i] = s.x /\ s.js[i] = s.j
NoNan == s.d # Nan
Damping == s.k = Cardinality({i \in 2..Len(seen) : s.crit[i - 1][2] = Nan \/ s.crit[i - 1][2] >= s.crit[i - 1][3]}) * 2 - s.it
Monotone == [][Abs(s'.d) <= Abs(s.d)]_vars
\* the criterion sees the numbers of the iterations in order
Counts == \A i \in 1..Len(s.crit) : s.crit[i][1] = i
\* the undamped exact step solves the normal equations
=============================================================================
