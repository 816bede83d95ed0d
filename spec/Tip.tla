-------------------------------- MODULE Tip --------------------------------
(* Tool tip calibration: a point pm fixed in a moving body touches a point  *)
(* pw fixed in the world, pw = R_i pm + t_i for every pose. Errors of the    *)
(* translation come in opposite pairs on equal rotations, so that (pm, pw)   *)
(* remains the least-squares solution; outliers are marked.                  *)
EXTENDS Lin
CONSTANTS MaxPoses
VARIABLES pm, pw, ps
vars == <<pm, pw, ps>>
E0 == <<0, 0, 0>>
P(q, e, o) == [q |-> q, e |-> e, o |-> o]
\* translation of the pose: pw - R pm + e, over QN(q)
Tr(p) == <<VSub(VScale(QN(p.q), VAdd(pw, p.e)), MatVec(RotM(p.q), pm)), QN(p.q)>>
\* relative rotations about at least two axes
Axis(a, b) == QIm(QMul(QConj(a), b))
Fixed(s) == \E i, j, k \in 1..Len(s) : i < j /\ i < k /\ j # k /\ ~IsZero(Cross(Axis(s[i].q, s[j].q), Axis(s[i].q, s[k].q)))
Clean == \A i \in 1..Len(ps) : ~ps[i].o
Exact == \A i \in 1..Len(ps) : IsZero(ps[i].e) \/ ps[i].o
Solvable == Len(ps) >= 3 /\ Clean /\ Fixed(ps)
Init == pm = E0 /\ pw = E0 /\ ps = <<>>
Fresh(m, w) == pm' = m /\ pw' = w /\ ps' = <<>>
Add(q) == ps' = Append(ps, P(q, E0, FALSE)) /\ UNCHANGED <<pm, pw>>
Pair(q, e) == ps' = ps \o <<P(q, e, FALSE), P(q, VNeg(e), FALSE)>> /\ UNCHANGED <<pm, pw>>
Outlier(q, e) == ps' = Append(ps, P(q, e, TRUE)) /\ UNCHANGED <<pm, pw>>
Qs == {<<0, 0, 0, 1>>, <<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 0>>, <<1, 1, 1, 1>>}
Next == \/ ps = <<>> /\ \E m \in {<<1, 2, 3>>, <<0, 0, 1>>} : Fresh(m, <<4, 0, -1>>)
        \/ Len(ps) < MaxPoses /\ \E q \in Qs : Add(q)
        \/ Len(ps) + 1 < MaxPoses /\ \E q \in Qs : Pair(q, <<0, 1, 1>>)
Spec == Init /\ [][Next]_vars
\* normal equations: sum of the errors, turned back and not, vanishes; the solution is unique where the poses turn about two axes
SumV(s) == IF s = <<>> THEN E0 ELSE <<Sum([i \in 1..Len(s) |-> s[i][1]]), Sum([i \in 1..Len(s) |-> s[i][2]]), Sum([i \in 1..Len(s) |-> s[i][3]])>>
Stationary == IsZero(SumV([i \in 1..Len(ps) |-> ps[i].e])) /\ IsZero(SumV([i \in 1..Len(ps) |-> VScale(4 \div QN(ps[i].q), MatVec(Trans(RotM(ps[i].q)), ps[i].e))]))
\* 3x3 normal matrix of pm after eliminating pw: n sum R^T R - (sum R)^T (sum R), definite iff solvable
RS == LET m(i) == MScale(4 \div QN(ps[i].q), RotM(ps[i].q)) IN [r \in 1..3 |-> [c \in 1..3 |-> Sum([i \in 1..Len(ps) |-> m(i)[r][c]])]]
Unique == Len(ps) >= 1 => \A s \in {RS} : \A n \in {MAdd(MScale(16 * Len(ps) * Len(ps), Ident(3)), MScale(-1, MatMul(Trans(s), s)))} : (Det3(n) # 0) = Fixed(ps)
=============================================================================
