------------------------------ MODULE RigidGen ------------------------------
EXTENDS Rigid, Gen
R(a, b) == RandomElement(a..b)
Gq(h) == LET c == R(1, 4) IN
   IF c = 1 THEN RandomElement(Octa)
   ELSE IF c = 2 THEN <<R(-3, 3), R(-3, 3), R(-3, 3), R(1, 3)>>
   ELSE IF c = 3 THEN <<R(-5, 5), R(-5, 5), R(1, 5), 0>>          \* half turns
   ELSE <<R(-1, 1), R(-1, 1), R(-1, 1), R(8, 20)>>                \* small angles
Gv(h) == <<R(-9, 9), R(-9, 9), R(-9, 9)>>
Steps(h) == <<R(-2, 2), R(-2, 2), R(-2, 2), R(4, 9)>>                 \* a rotation step of less than 90 degrees
Sgn(b, q) == IF b = 1 THEN VNeg(q) ELSE q
DoSet == \E i \in {R(1, NR)}, q \in {Gq(hist)}, t \in {Gv(hist)}, d \in {R(1, 4)} :
   LET p == PNorm(Pose(q, t, d)) IN Set(i, p) /\ Record("set", <<i, [qs |-> p.q], Vx(p.t, p.d)>>, Px(p))
DoMul == \E i \in {R(1, NR)}, j \in {R(1, NR)}, k \in {R(1, NR)} :
   IF PFits(PMul(reg[j], reg[k]), 1500) /\ QN(reg[j].q) * MaxAbs(reg[k].t) < 400000
   THEN Mul(i, j, k) /\ Record("mul", <<i, j, k>>, Px(reg'[i])) ELSE DoSet
DoInv == \E i \in {R(1, NR)}, j \in {R(1, NR)} :
   IF PFits(PInv(reg[j]), 1500) THEN Inv(i, j) /\ Record("inv", <<i, j>>, Px(reg'[i])) ELSE DoSet
DoApply == \E i \in {R(1, NR)}, v \in {Gv(hist)} : LET x == PApply(reg[i], v, 1) IN
   UNCHANGED reg /\ Record("apply", <<i, Vx(v, 1)>>, <<Vx(x[1], x[2])>>)
DoRot == \E i \in {R(1, NR)}, v \in {Gv(hist)} :
   UNCHANGED reg /\ Record("rot", <<i, Vx(v, 1)>>, <<Vx(MatVec(RotM(reg[i].q), v), QN(reg[i].q))>>)
DoScale == \E i \in {R(1, NR)}, n \in {RandomElement({-2, -1, 0, 1, 2, 3})}, d \in {R(1, 4)} :
   LET p == PNorm(Pose(reg[i].q, VScale(n, reg[i].t), reg[i].d * d)) IN
   IF PFits(p, 1500) THEN Set(i, p) /\ Record("scale", <<i, Nx(n, d)>>, Px(p)) ELSE DoSet
DoMat == \E i \in {R(1, NR)} : LET n == QN(reg[i].q) IN
   UNCHANGED reg /\ Record("mat", <<i>>, <<Mx(RotM(reg[i].q), n), Vx(reg[i].t, reg[i].d)>>)
DoMatRound == \E i \in {R(1, NR)} : UNCHANGED reg /\ Record("matround", <<i>>, Px(reg[i]))
DoVecRound == \E i \in {R(1, NR)} : UNCHANGED reg /\ Record("vec", <<i>>, <<Vx(reg[i].t, reg[i].d), Qx(reg[i].q), 1>>)
DoCopy == \E i \in {R(1, NR)}, j \in {R(1, NR)} : Set(i, reg[j]) /\ Record("copy", <<i, j>>, Px(reg[j]))
DoEqCopy == \E i \in {R(1, NR)} : UNCHANGED reg /\ Record("eqcopy", <<i>>, <<1, 0>>)
DoEq == \E i \in {R(1, NR)}, j \in {R(1, NR)} :
   IF PSame(reg[i], reg[j]) THEN DoEqCopy ELSE UNCHANGED reg /\ Record("eq", <<i, j>>, <<0, 1>>)
\* equal in all but one component
DoEqNear == \E i \in {R(1, NR)}, c \in {R(1, 3)} : UNCHANGED reg /\ Record("eqnear", <<i, c>>, <<0, 1>>)
DoNorm == \E i \in {R(1, NR)}, k \in {RandomElement({1, 2, 7, 1000})} : UNCHANGED reg /\ Record("normalize", <<i, k>>, <<Qx(reg[i].q)>>)
DoNegate == \E i \in {R(1, NR)}, j \in {R(1, NR)} : LET s == Dot(reg[i].q, reg[j].q) IN
   UNCHANGED reg /\ Record("negate", <<[qs |-> reg[i].q], [qs |-> reg[j].q]>>,
                           IF s = 0 THEN <<Qx(reg[i].q)>> ELSE <<[qs |-> IF s > 0 THEN reg[i].q ELSE VNeg(reg[i].q)]>>)
\* a uniform motion is interpolated uniformly
DoInterp == \E i \in {R(1, NR)}, u \in {Steps(hist)}, n \in {R(1, 3)}, s \in {R(0, 1)}, v \in {Gv(hist)}, l \in {R(1, 3)} : \E k \in {R(0, n)} :
   LET a == reg[i] un == Prim(QPow(u, n)) uk == Prim(QPow(u, k)) IN
   \* the shorter way round is only defined below 180 degrees
   IF MaxAbs(a.q) <= 40 /\ un[4] > 0 /\ MaxAbs(un) < 20000
   THEN LET b == Pose(Sgn(s, Prim(QMul(a.q, un))), VAdd(a.t, VScale(n, v)), a.d)
            r == Pose(Prim(QMul(a.q, uk)), VAdd(a.t, VScale(k, v)), a.d)
        IN UNCHANGED reg /\ Record("interp", <<i, [qs |-> b.q], Vx(b.t, b.d), Nx(k, n), l>>, <<Tol(7, Qx(r.q)), Vx(r.t, r.d)>>)
   ELSE DoSet
\* very small and large rotations
DoInterpFine == \E i \in {R(1, NR)}, k \in {R(0, 4)}, e \in {RandomElement({3, 10, 31, 32, 99, 180})}, s \in {R(0, 1)} :
   LET a == reg[i] u == <<R(-1, 1), 1, R(-1, 1), e>> IN
   \E uu \in {u} : LET un == QMul(uu, uu) IN
   IF MaxAbs(a.q) <= 40 /\ un[4] > 0
   THEN UNCHANGED reg /\ Record("interp", <<i, [qs |-> Sgn(s, QMul(a.q, un))], Vx(a.t, a.d), Nx(1, 2), 1>>, <<Tol(7, Qx(QMul(a.q, uu))), Vx(a.t, a.d)>>)
   ELSE DoSet
Do == \E c \in {R(1, 20)} :
   CASE c <= 3 -> DoSet [] c <= 6 -> DoMul [] c = 7 -> DoInv [] c = 8 -> DoApply [] c = 9 -> DoRot [] c = 10 -> DoScale
     [] c = 11 -> DoMat [] c = 12 -> DoMatRound [] c = 13 -> DoVecRound [] c = 14 -> DoCopy [] c = 15 -> DoEqNear [] c = 16 -> DoEq
     [] c = 17 -> DoNorm [] c = 18 -> DoNegate [] c = 19 -> DoInterp [] OTHER -> DoInterpFine
GenNext == \/ More /\ Do
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == Init /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
