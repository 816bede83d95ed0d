----------------------------- MODULE ErrPoseGen -----------------------------
EXTENDS ErrPose, Gen
R(a, b) == RandomElement(a..b)
\* mostly rotations of the cube, so that chains stay exact; some generic ones
Sq == {<<1, 2, 2, 0>>, <<2, 0, -1, 2>>, <<0, 3, 0, 4>>, <<4, 0, 0, -3>>, <<2, 1, 2, 4>>, <<1, 1, 3, 5>>, <<0, 0, 1, 0>>, <<1, -1, 1, 1>>, <<-1, 1, 1, -1>>, QId, <<2, 4, -2, 5>>}
Gq(h) == LET c == R(1, 6) IN
   IF c <= 3 THEN Prim(RandomElement(Octa)) ELSE IF c <= 5 THEN RandomElement(Sq) ELSE <<R(-2, 2), R(-2, 2), R(-2, 2), R(1, 2)>>
Gv(h) == <<R(-5, 5), R(-5, 5), R(-5, 5)>>
\* covariances: L L^T with a random lower triangle, sometimes singular, sometimes zero
Gl(h, n, k) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(0, 2) ELSE IF j < i /\ R(1, k) = 1 THEN R(-2, 2) ELSE 0]]
Cov(n) == The({RM(MatMul(l, Trans(l)), d) : l \in {TLCEval(Gl(hist, n, 3))}, d \in {RandomElement({1, 1, 2, 5})}})
Cx(c) == Mx(c.m, c.d)
Ex(e) == Px(e.p) \o <<Cx(e.c)>>
Bnd(c) == TLCEval(Max2(MaxAbs(Flat(c.m)), c.d))
Big == 1000000000
SafeP(j, c) == \A bj \in {Bnd(j)}, bc \in {Bnd(c)} : bj <= 2000 /\ bc <= 20000000 /\ bj * bj <= Big \div (36 * bc)
SafeA(a, b) == \A x \in {Bnd(a)}, y \in {Bnd(b)} : x <= Big \div (2 * y)
DoSet == \E i \in {R(1, NR)}, q \in {Gq(hist)}, t \in {Gv(hist)}, d \in {RandomElement({1, 1, 2})}, c \in {Cov(6)} :
   LET e == EP(PNorm(Pose(q, t, d)), c) IN Set(i, e) /\ Record("set", <<i, [qs |-> e.p.q], Vx(e.p.t, e.p.d), Cx(c)>>, Ex(e))
OkPose(p) == PFits(p, 100) /\ MaxAbs(p.t) <= 300 /\ p.d <= 100
DoInv == \E i \in {R(1, NR)}, j \in {R(1, NR)} : \E a \in {reg[j]} :
   IF SafeP(JInv(a.p), a.c) /\ OkPose(PInv(a.p))
   THEN \E e \in {EInv(a)} : Set(i, e) /\ Record("inv", <<i, j>>, Ex(e)) ELSE DoSet
MulOk(a, b) == OkPose(PMul(a.p, b.p)) /\ SafeP(JLeft(a.p, b.p), a.c) /\ SafeP(JRight(a.p, b.p), b.c)
               /\ SafeA(Prop(JLeft(a.p, b.p), a.c), Prop(JRight(a.p, b.p), b.c))
DoMul == \E i \in {R(1, NR)}, j \in {R(1, NR)}, k \in {R(1, NR)} : \E a \in {reg[j]}, b \in {reg[k]} :
   IF MulOk(a, b) THEN \E e \in {EMul(a, b)} : Set(i, e) /\ Record("mul", <<i, j, k>>, Ex(e)) ELSE DoSet
DoMulP == \E i \in {R(1, NR)}, j \in {R(1, NR)}, k \in {R(1, NR)} : \E a \in {reg[j]}, b \in {reg[k]} :
   IF MulOk(a, b) THEN \E e \in {EMulP(a, b.p)} : Set(i, e) /\ Record("mulp", <<i, j, k>>, Ex(e)) ELSE DoSet
DoPMul == \E i \in {R(1, NR)}, j \in {R(1, NR)}, k \in {R(1, NR)} : \E a \in {reg[j]}, b \in {reg[k]} :
   IF MulOk(a, b) THEN \E e \in {PMulE(a.p, b)} : Set(i, e) /\ Record("pmul", <<i, j, k>>, Ex(e)) ELSE DoSet
DoInvMul == \E i \in {R(1, NR)}, j \in {R(1, NR)}, k \in {R(1, NR)} : \E a \in {reg[j]}, b \in {reg[k]} :
   IF SafeP(JInv(a.p), a.c) /\ OkPose(PInv(a.p))
   THEN \E x \in {EInv(a)} : IF MulOk(x, b) THEN \E e \in {EMul(x, b)} : Set(i, e) /\ Record("invmul", <<i, j, k>>, Ex(e)) ELSE DoSet
   ELSE DoSet
DoVec == \E j \in {R(1, NR)}, v \in {Gv(hist)} : \E a \in {reg[j]} :
   IF SafeP(JVec(a.p, v), a.c)
   THEN \E x \in {EVec(a, v)} : UNCHANGED reg /\ Record("vec", <<j, Vx(v, 1)>>, <<Vx(x.v[1], x.v[2]), Cx(x.c), [sq |-> x.c.m[1][1] + x.c.m[2][2] + x.c.m[3][3], d |-> x.c.d]>>)
   ELSE DoSet
DoVecE == \E j \in {R(1, NR)}, v \in {Gv(hist)}, c \in {Cov(3)} : \E a \in {reg[j]} :
   IF SafeP(JVec(a.p, v), a.c) /\ SafeP(Rot(a.p), c) /\ SafeA(Prop(JVec(a.p, v), a.c), Prop(Rot(a.p), c))
   THEN \E x \in {EVecE(a, v, c)} : UNCHANGED reg /\ Record("vece", <<j, Vx(v, 1), Cx(c)>>, <<Vx(x.v[1], x.v[2]), Cx(x.c)>>)
   ELSE DoSet
DoBlend == \E j \in {R(1, NR)}, c \in {Cov(6)}, n \in {R(0, 4)}, v \in {Gv(hist)} : \E a \in {reg[j]} :
   IF Bnd(a.c) <= 1000000
   THEN \E x \in {EBlend(a, EP(PId, c), n, 4)} : UNCHANGED reg /\ Record("blend", <<j, Vx(VAdd(VScale(a.p.d, v), a.p.t), a.p.d), Cx(c), Nx(n, 4)>>,
            <<Qx(a.p.q), Vx(VAdd(VScale(4, a.p.t), VScale(n * a.p.d, v)), 4 * a.p.d), Cx(x)>>)
   ELSE DoSet
Root(n) == {s \in 1..12 : s * s = n}
DoToAdd == \E j \in {R(1, NR)} : \E a \in {reg[j]} :
   IF Root(QN(a.p.q)) # {} /\ \A s \in Root(QN(a.p.q)) : SafeP(JAdd(a.p.q, s), Widen(a.c))
   THEN \E s \in Root(QN(a.p.q)) : UNCHANGED reg /\ Record("toadd", <<j, [qs |-> a.p.q]>>, <<Cx(ToAdd(a, s))>>)
   ELSE DoSet
DoFromAdd == \E j \in {R(1, NR)}, q \in {RandomElement(Sq)}, t \in {Gv(hist)}, c \in {Cov(7)} : \E s \in Root(QN(q)) :
   LET e == EP(Pose(q, t, 1), FromAdd(q, s, c)) IN
   Set(j, e) /\ Record("fromadd", <<j, Vx(t, 1), [qs |-> q], Cx(c)>>, Ex(e))
DoAddRound == \E j \in {R(1, NR)} : UNCHANGED reg /\ Record("addround", <<j>>, Ex(reg[j]))
Do == \E c \in {R(1, 17)} :
   CASE c <= 3 -> DoSet [] c <= 5 -> DoMul [] c = 6 -> DoMulP [] c = 7 -> DoPMul [] c <= 9 -> DoInv [] c <= 11 -> DoInvMul [] c = 12 -> DoVec
     [] c = 13 -> DoVecE [] c = 14 -> DoBlend [] c = 15 -> DoToAdd [] c = 16 -> DoAddRound [] OTHER -> DoFromAdd
GenNext == \/ More /\ Do
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == Init /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
