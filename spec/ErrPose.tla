------------------------------ MODULE ErrPose ------------------------------
(* Poses with uncertainty. A register holds a rigid transform and the 6x6   *)
(* covariance of its error (e_t, e_r) in                                    *)
(*      x' = q e_r x e_r* q* + t + e_t .                                    *)
(* Every operation propagates the covariance to first order: C -> J C J^T   *)
(* with J the derivative of the resulting error by the errors of the        *)
(* operands, which are independent of each other. All matrices are exact:   *)
(* numerators over one common denominator.                                  *)
EXTENDS Lin
CONSTANTS NR
VARIABLE reg
vars == <<reg>>
Regs == 1..NR

\* rational matrices [m |-> integer matrix, d |-> positive denominator]. Operands are bound with \in {..}, so
\* that TLC evaluates them once.
The(S) == CHOOSE x \in S : TRUE
RM(m, d) == TLCEval([m |-> m, d |-> d])
RNorm(r0) == The({ The({IF g <= 1 THEN r ELSE RM([i \in 1..Len(r.m) |-> VDiv(r.m[i], g)], r.d \div g) : g \in {GcdMat(r.m, Len(r.m), r.d)}}) : r \in {r0}})
RMul(a0, b0) == The({RNorm(RM(MatMul(a.m, b.m), a.d * b.d)) : a \in {a0}, b \in {b0}})
RT(a0) == The({RM(Trans(a.m), a.d) : a \in {a0}})
RAdd(a0, b0) == The({LET l == Lcm(a.d, b.d) IN RNorm(RM(MAdd(MScale(l \div a.d, a.m), MScale(l \div b.d, b.m)), l)) : a \in {a0}, b \in {b0}})
RScale(n, d, a0) == The({RNorm(RM(MScale(n, a.m), a.d * d)) : a \in {a0}})
Prop(j0, c) == The({RMul(RMul(j, c), RT(j)) : j \in {j0}})
REq(a0, b0) == \A x \in {RNorm(a0)}, y \in {RNorm(b0)} : x = y
Skew(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
\* 2x2 block matrices of 3x3 rational blocks
Rot(p) == RNorm(RM(RotM(p.q), QN(p.q)))
Sk(v, d, k) == RM(MScale(k, Skew(v)), d)
RI(n) == RM(Ident(n), 1)
RZ(n, k) == RM([i \in 1..n |-> [j \in 1..k |-> 0]], 1)
HCat(a0, b0) == The({LET l == Lcm(a.d, b.d) x == MScale(l \div a.d, a.m) y == MScale(l \div b.d, b.m) IN
              RM([i \in 1..Len(x) |-> x[i] \o y[i]], l) : a \in {a0}, b \in {b0}})
VCat(a0, b0) == The({LET l == Lcm(a.d, b.d) IN RM(MScale(l \div a.d, a.m) \o MScale(l \div b.d, b.m), l) : a \in {a0}, b \in {b0}})
Blk(a, b, c, d) == RNorm(VCat(HCat(a, b), HCat(c, d)))

\* the derivatives
JInv(p) == The({Blk(RM(MScale(-1, Trans(r.m)), r.d), Sk(u[1], u[2], -2), RZ(3, 3), RM(MScale(-1, r.m), r.d)) :
                r \in {Rot(p)}, u \in {PApply(Pose(QConj(p.q), <<0, 0, 0>>, 1), p.t, p.d)}})
JLeft(p1, p2) == Blk(RI(3), RMul(Rot(p1), Sk(p2.t, p2.d, -2)), RZ(3, 3), RT(Rot(p2)))
JRight(p1, p2) == Blk(Rot(p1), RZ(3, 3), RZ(3, 3), RI(3))
JVec(p, v) == HCat(RI(3), RMul(Rot(p), Sk(v, 1, -2)))

EP(p, c) == TLCEval([p |-> p, c |-> c])
EInv(a0) == The({EP(PInv(a.p), Prop(JInv(a.p), a.c)) : a \in {a0}})
EMul(a0, b0) == The({EP(PMul(a.p, b.p), RAdd(Prop(JLeft(a.p, b.p), a.c), Prop(JRight(a.p, b.p), b.c))) : a \in {a0}, b \in {b0}})
EMulP(a0, p0) == The({EP(PMul(a.p, p), Prop(JLeft(a.p, p), a.c)) : a \in {a0}, p \in {p0}})
PMulE(p0, b0) == The({EP(PMul(p, b.p), Prop(JRight(p, b.p), b.c)) : p \in {p0}, b \in {b0}})
EInvMul(a0, b0) == The({EMul(EInv(a), b) : a \in {a0}, b \in {b0}})
EVec(a0, v0) == The({[v |-> PApply(a.p, v, 1), c |-> Prop(JVec(a.p, v), a.c)] : a \in {a0}, v \in {v0}})
EVecE(a0, v0, c0) == The({[v |-> PApply(a.p, v, 1), c |-> RAdd(Prop(JVec(a.p, v), a.c), Prop(Rot(a.p), c))] : a \in {a0}, v \in {v0}, c \in {c0}})
EBlend(a0, b0, n0, d0) == The({RAdd(RScale((d - n) * (d - n), d * d, a.c), RScale(n * n, d * d, b.c)) : a \in {a0}, b \in {b0}, n \in {n0}, d \in {d0}})

\* the additive form: the error of the quaternion's four components is that of q e_r
LMat(q) == << <<q[4], -q[3], q[2], q[1]>>, <<q[3], q[4], -q[1], q[2]>>, <<-q[2], q[1], q[4], q[3]>>, <<-q[1], -q[2], -q[3], q[4]>> >>
JAdd(q, s) == Blk(RI(3), RZ(3, 4), RZ(4, 3), RM(LMat(q), s))              \* s = |q|
Widen(c) == LET w == c.m[4][4] + c.m[5][5] + c.m[6][6] IN
            RM([i \in 1..7 |-> [j \in 1..7 |-> IF i <= 6 /\ j <= 6 THEN c.m[i][j] ELSE IF i = 7 /\ j = 7 THEN w ELSE 0]], c.d)
ToAdd(a, s) == Prop(JAdd(a.p.q, s), Widen(a.c))
Top6(c) == RM([i \in 1..6 |-> [j \in 1..6 |-> c.m[i][j]]], c.d)
FromAdd(q, s, c) == The({Top6(x) : x \in {Prop(JAdd(QConj(q), s), c)}})

ZeroC == RZ(6, 6)
EId == EP(PId, ZeroC)
Init == reg = [i \in Regs |-> EId]
Set(i, e) == reg' = [reg EXCEPT ![i] = e]
CBnd(e) == LET f == Flat(e.c.m) IN Max2(MaxAbs(f), e.c.d)
Fits(e) == PFits(e.p, 40) /\ MaxAbs(e.p.t) <= 60 /\ e.p.d <= 20

\* exhaustive exploration
TS == {<<0, 0, 0>>, <<1, 0, 2>>, <<0, -1, 1>>}
QS == {QId, <<1, 0, 0, 1>>, <<1, 1, 1, 1>>, <<0, 1, 0, 0>>, <<0, 0, -1, 1>>}
Lo(k) == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN 1 ELSE IF j < i THEN ((i * k + j * j) % 3) - 1 ELSE 0]]
CS == {RM(MatMul(Lo(k), Trans(Lo(k))), 1) : k \in 1..2} \cup {RM(Diag(<<1, 2, 3, 4, 5, 6>>), 1)}
Fresh == {EP(Pose(q, t, 1), c) : q \in QS, t \in TS, c \in CS}
Next == \/ \E i \in Regs, e \in Fresh : Set(i, e)
        \/ \E i, j \in Regs : MaxAbs(reg[j].p.t) <= 3 /\ CBnd(reg[j]) <= 300 /\ Set(i, EInv(reg[j]))
        \/ \E i, j, k \in Regs : MaxAbs(reg[j].p.t) <= 2 /\ MaxAbs(reg[k].p.t) <= 2 /\ CBnd(reg[j]) <= 100 /\ CBnd(reg[k]) <= 100 /\ Set(i, EMul(reg[j], reg[k]))
Spec == Init /\ [][Next]_vars
Seen == {reg[i] : i \in Regs}
Probe == {EP(Pose(<<1, 0, 0, 1>>, <<0, 1, 2>>, 1), RM(MatMul(Lo(1), Trans(Lo(1))), 1)), EP(Pose(<<0, 1, 1, 0>>, <<-1, 0, 1>>, 1), RM(Diag(<<1, 2, 3, 4, 5, 6>>), 1)),
          EP(Pose(<<1, 2, 2, 0>>, <<1, 0, 0>>, 1), RM(MatMul(Lo(2), Trans(Lo(2))), 1))}
ESame(a0, b0) == \A a \in {a0}, b \in {b0} : PSame(a.p, b.p) /\ REq(a.c, b.c)
Small(a) == CBnd(a) <= 200
Laws == \A a \in Seen : Small(a) =>
   /\ ESame(EInv(EInv(a)), a)
   /\ \A b \in Probe : /\ ESame(EInv(EMul(a, b)), EMul(EInv(b), EInv(a)))
                       /\ ESame(EMulP(a, b.p), EMul(a, EP(b.p, ZeroC))) /\ ESame(PMulE(b.p, a), EMul(EP(b.p, ZeroC), a))
                       /\ \A c \in Probe : ESame(EMul(EMul(a, b), c), EMul(a, EMul(b, c)))
                       /\ \A v \in {<<1, -2, 3>>} : \A y \in {EVec(b, v)}, z \in {EVec(EMul(a, b), v)} :
                          y.v[2] = 1 => REq(z.c, EVecE(a, y.v[1], y.c).c)
Symmetric == \A a \in Seen : Trans(a.c.m) = a.c.m /\ \A i \in 1..6 : a.c.m[i][i] >= 0
AddRound == \A a \in Seen : LET n == QN(a.p.q) IN \A s \in {x \in 1..6 : x * x = n} : Small(a) => REq(FromAdd(a.p.q, s, ToAdd(a, s)), a.c)
=============================================================================
