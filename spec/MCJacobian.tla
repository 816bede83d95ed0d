---------------------------- MODULE MCJacobian ----------------------------
(* The derivatives of Jacobian.tla are the derivatives: exact difference   *)
(* formulas on grids of arguments.                                          *)
EXTENDS Jacobian
VARIABLES kind, a, b
Q5 == {q \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : q # <<0, 0, 0, 0>> /\ (q[1] + q[2] + q[3] + q[4]) % 2 = 0 /\ QN(q) <= 7}
V3 == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -2, 3>>}
Axes == {<<<<1, 0, 0>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<3, 0, 4>>, 5>>, <<<<1, 2, -2>>, 3>>, <<<<2, 3, 6>>, 7>>}
P == {<<x, y>> : x \in -3..3, y \in -3..3}
D4 == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 2, -3, 5>>}
Init == \/ kind = "rot" /\ a \in Q5 /\ b \in V3
        \/ kind = "lie" /\ a \in (Axes \X (0..5)) /\ b \in V3
        \/ kind = "dist" /\ a \in P /\ b \in D4
        \/ kind = "dehom" /\ a \in {<<x, y, z>> : x \in -2..2, y \in -2..2, z \in {-2, 1, 3}} /\ b \in {g \in [1..3 -> {<<1, 0>>, <<0, 2>>, <<1, -1>>}] : TRUE}
        \/ kind = "hec" /\ a \in {<<p, q>> : p \in {<<1, 2, -1, 3>>, <<0, 1, 1, 0>>}, q \in {<<2, -1, 0, 1>>, <<1, 1, 1, 1>>}} /\ b \in Q5
        \/ kind = "norm" /\ a \in {<<x, y, z>> : x \in -3..3, y \in -3..3, z \in -3..3} \ {<<0, 0, 0>>} /\ b = <<>>
Next == UNCHANGED <<kind, a, b>>
Spec == Init /\ [][Next]_<<kind, a, b>>
\* quadratic maps: the central difference with step 1 is twice the derivative
RotOk == kind = "rot" =>
   /\ \A i \in 1..4 : VSub(RotQ(VAdd(a, E4[i]), b), RotQ(VSub(a, E4[i]), b)) = VScale(2, Col(DQ(a, b), i))
   /\ MatVec(DQ(a, b), a) = VScale(2, RotQ(a, b))                      \* homogeneous of degree two
   /\ \A i \in 1..3 : LET e(s) == QMul(a, <<s*E3[i][1], s*E3[i][2], s*E3[i][3], 1>>)
                      IN  VSub(RotQ(e(1), b), RotQ(e(-1), b)) = VScale(2, Col(DErr(a, b), i))
\* a rotation; R = 1 + th [a]x L and a' L = a', which determines the left jacobian L; the derivative as the general expression gives it
Th(k, p, q) == IF k = 0 THEN p ELSE MAdd(p, q)
LieOk == kind = "lie" =>
   LET A == a[1][1] m == a[1][2] k == a[2] r == QuarterR(A, m, k) p == QuarterP(A, m, k) q == QuarterQ(A, m, k)
       num(x, y, z) == IF k = 0 THEN x ELSE z
   IN  /\ MatMul(r, Trans(r)) = Diag(<<Pow(m, 4), Pow(m, 4), Pow(m, 4)>>) /\ Det3(r) = Pow(m, 6) /\ MatVec(r, A) = VScale(m*m, A)
       /\ MatMul(Skew(A), p) = (IF k = 0 THEN MScale(m*m, Skew(A)) ELSE Diag(<<0, 0, 0>>))
       /\ (k # 0 => MScale(m, MAdd(r, Diag(<<-m*m, -m*m, -m*m>>))) = MatMul(Skew(A), q))
       /\ MatVec(Trans(p), A) = VScale(m*m, A) /\ MatVec(Trans(q), A) = <<0, 0, 0>>
       /\ \A j \in 1..3 : \* the two forms of the derivative: coefficients of 1 and of 1/th
             LET t == LieD(A, m, b, j, Cq(k), Sq(k), 1 - Cq(k), "u", "u1", "w")
                 part(x) == LET s == {n \in 1..9 : t[n][1] = x} IN
                    [i \in 1..3 |-> Sum([n \in 1..9 |-> IF n \in s THEN t[n][2] * t[n][3][i] ELSE 0])]
                 U == part("u") U1 == part("u1") W == part("w")
             IN  IF k = 0 THEN VAdd(U, <<0, 0, 0>>) = Col(QuarterDP(A, m, k, b), j)
                 ELSE /\ U1 = Col(QuarterDP(A, m, k, b), j)                       \* u = s/th, u1 = 1 - s/th, w = (1-c)/th
                      /\ VAdd(VSub(VScale(Sq(k), U), VScale(Sq(k), U1)), VScale(1 - Cq(k), W)) = Col(QuarterDQ(A, m, k, b), j)
\* polynomials up to degree five: the seven point formula is exact; the values as documented
Doc(x, y, d) == LET r == x*x + y*y f == 1 + d[1]*r + d[2]*r*r IN <<x*f + 2*d[3]*x*y + d[4]*(r + 2*x*x), y*f + 2*d[4]*x*y + d[3]*(r + 2*y*y)>>
Six(f(_)) == 45*(f(1) - f(-1)) - 9*(f(2) - f(-2)) + f(3) - f(-3)
DistOk == kind = "dist" =>
   LET x == a[1] y == a[2] IN
   \A r \in 1..2 : /\ Poly(Dist(r), b, x, y) = Doc(x, y, b)[r]
                   /\ LET f(h) == Poly(Dist(r), b, x + h, y) IN Six(f) = 60 * Poly(DX(Dist(r)), b, x, y)
                   /\ LET f(h) == Poly(Dist(r), b, x, y + h) IN Six(f) = 60 * Poly(DY(Dist(r)), b, x, y)
                   /\ \A k \in 1..4 : Poly(Dist(r), [b EXCEPT ![k] = b[k] + 1], x, y) - Poly(Dist(r), b, x, y) = Poly(DK(Dist(r), k), b, x, y)
\* (c + h g) / (z + h g_n) - c / z = h * derivative * z / (z + h g_n)
DehomOk == kind = "dehom" => LET d == DDehom(a, b) IN
   \A r \in 1..2, j \in 1..2, h \in {1, -1, 2} : (a[r] + h*b[r][j]) * a[3] - a[r] * (a[3] + h*b[3][j]) = h * d[r][j]
HecOk == kind = "hec" =>
   \A i \in 1..4 : /\ VSub(HecV(a[1], a[2], VAdd(b, E4[i])), HecV(a[1], a[2], b)) = Col(HecX(a[1], a[2]), i)
                   /\ VSub(HecV(VAdd(a[1], E4[i]), a[2], b), HecV(a[1], a[2], b)) = Col(HecA(b), i)
                   /\ VSub(HecV(a[1], VAdd(a[2], E4[i]), b), HecV(a[1], a[2], b)) = Col(HecB(b), i)
\* v / |v|: moves across v change it by 1/|v|, moves along v do not
NormOk == kind = "norm" => LET j == DNormalize(a) IN
   /\ MatVec(j, a) = <<0, 0, 0>> /\ \A e \in {Cross(a, E3[1]), Cross(a, E3[2]), Cross(a, E3[3])} : MatVec(j, e) = VScale(Norm2(a), e)
Inv == RotOk /\ LieOk /\ DistOk /\ DehomOk /\ HecOk /\ NormOk
=============================================================================
