------------------------------- MODULE Rigid -------------------------------
(* Rigid transforms of space form a group that acts on points.              *)
(* Registers hold transforms; operations compose, invert, apply, scale,     *)
(* interpolate and compare them.                                            *)
EXTENDS Lin
CONSTANTS NR, QB, TB    \* registers, bound on quaternion norm, translations
VARIABLE reg
vars == <<reg>>
Regs == 1..NR
SmallT == {<<a, b, c>> : a \in -TB..TB, b \in -TB..TB, c \in -TB..TB}
SmallQ == {q \in Octa : QN(q) <= QB}
Init == reg = [i \in Regs |-> PId]
Set(i, p) == reg' = [reg EXCEPT ![i] = p]
Mul(i, j, k) == Set(i, PMul(reg[j], reg[k]))
Inv(i, j) == Set(i, PInv(reg[j]))
Scale(i, n, d) == LET p == reg[i] IN Set(i, PNorm(Pose(p.q, VScale(n, p.t), p.d * d)))
Next == \/ \E i \in Regs, q \in SmallQ, t \in SmallT : Set(i, Pose(Prim(q), t, 1))
        \/ \E i, j, k \in Regs : PFits(PMul(reg[j], reg[k]), 4) /\ MaxAbs(PMul(reg[j], reg[k]).t) <= 2 * TB /\ Mul(i, j, k)
        \/ \E i, j \in Regs : Inv(i, j)
Spec == Init /\ [][Next]_vars
Pts == {<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>, <<1, -2, 3>>}
Probe == {PId, Pose(<<1, 0, 0, 1>>, <<0, 1, 0>>, 1), Pose(<<1, 2, 3, 4>>, <<3, -1, 2>>, 2), Pose(<<0, 1, -1, 0>>, <<-1, 0, 5>>, 3), Pose(<<0, 0, -2, 1>>, <<0, 0, 1>>, 1)}
Seen == {reg[i] : i \in Regs}
\* group laws
Group == \A a \in Seen : \A b \in Probe :
   /\ PSame(PMul(a, PInv(a)), PId) /\ PSame(PMul(PInv(a), a), PId)
   /\ PSame(PMul(a, PId), a) /\ PSame(PMul(PId, a), a)
   /\ PSame(PInv(PMul(a, b)), PMul(PInv(b), PInv(a)))
   /\ \A c \in Probe : PSame(PMul(PMul(a, b), c), PMul(a, PMul(b, c))) /\ PSame(PMul(PMul(b, a), c), PMul(b, PMul(a, c)))
\* composition acts like composition, and distances are kept
Action == \A a \in Seen : \A b \in Probe : \A p \in Pts : LET y == PApply(b, p, 1) x == PApply(a, y[1], y[2]) z == PApply(PMul(a, b), p, 1) IN
   \A c \in 1..3 : x[1][c] * z[2] = z[1][c] * x[2]
Isometry == \A a \in Seen : \A p, r \in Pts : LET x == PApply(a, p, 1) y == PApply(a, r, 1) IN
   Norm2(VSub(VScale(y[2], x[1]), VScale(x[2], y[1]))) = Norm2(VSub(p, r)) * x[2] * x[2] * y[2] * y[2]
=============================================================================
