----------------------------- MODULE Jacobian -----------------------------
(* Functions that are given to the optimisers and to error propagation,     *)
(* with their matrices of partial derivatives. Rotations are rational unit  *)
(* quaternions q / k with k * k = QN(q); everything is an integer over a    *)
(* known denominator, or an expression of such numbers.                     *)
EXTENDS Lin
E3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
E4 == Ident(4)
Im(q) == <<q[1], q[2], q[3]>>
Cols3(f(_)) == LET a == f(1) b == f(2) c == f(3) IN Trans(<<a, b, c>>)
\* skew matrix: Skew(a) b = a x b
Skew(a) == <<<<0, -a[3], a[2]>>, <<a[3], 0, -a[1]>>, <<-a[2], a[1], 0>>>>
\* ---- q v q*, and its derivatives by the components of q (over k) and by the imaginary part of a small rotation applied first (over k^2)
RotQ(q, v) == MatVec(RotM(q), v)
DQ(q, v) == LET p == <<v[1], v[2], v[3], 0>>
                c(i) == Im(VAdd(QMul(QMul(E4[i], p), QConj(q)), QMul(QMul(q, p), QConj(E4[i]))))
            IN  Trans(<<c(1), c(2), c(3), c(4)>>)
DErr(q, v) == LET c(i) == VScale(2, RotQ(q, Cross(E3[i], v))) IN Cols3(c)
\* ---- rotation about the unit axis A / m by the angle th; c, s, u = s / th, w = (1 - c) / th are expressions or numbers
\* a vector over m^2 as a list of <<coefficient, vector over m^2>>
LieV(A, m, v, c, s, c1) == <<<<c, VScale(m*m, v)>>, <<s, VScale(m, Cross(A, v))>>, <<c1, VScale(Dot(A, v), A)>>>>
\* the derivative by component j of the rotation vector: (left jacobian e_j) x (rotated vector); over m^4
LieL(A, m, j, u, u1, w) == <<<<u, VScale(m*m, E3[j])>>, <<u1, VScale(A[j], A)>>, <<w, VScale(m, Cross(A, E3[j]))>>>>
LieD(A, m, v, j, c, s, c1, u, u1, w) == LET l == LieL(A, m, j, u, u1, w) r == LieV(A, m, v, c, s, c1)
                                        IN  [n \in 1..9 |-> LET a == (n + 2) \div 3 b == ((n - 1) % 3) + 1 IN <<l[a][1], r[b][1], Cross(l[a][2], r[b][2])>>]
\* a quarter turn k: cosine, sine; the rotation over m^2
Cq(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sq(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
QuarterR(A, m, k) == MAdd(MAdd(Diag(VScale(Cq(k)*m*m, <<1, 1, 1>>)), MScale(Sq(k)*m, Skew(A))), MScale(1 - Cq(k), Outer(A, A)))
\* its left jacobian: P + Q / th over m^2
QuarterP(A, m, k) == IF k = 0 THEN Diag(<<m*m, m*m, m*m>>) ELSE Outer(A, A)
QuarterQ(A, m, k) == IF k = 0 THEN Diag(<<0, 0, 0>>) ELSE MAdd(MScale(Sq(k), MAdd(Diag(<<m*m, m*m, m*m>>), MScale(-1, Outer(A, A)))), MScale((1 - Cq(k))*m, Skew(A)))
\* the derivative of the rotated vector: P' + Q' / th over m^4
QuarterDP(A, m, k, v) == MScale(-1, MatMul(Skew(MatVec(QuarterR(A, m, k), v)), QuarterP(A, m, k)))
QuarterDQ(A, m, k, v) == MScale(-1, MatMul(Skew(MatVec(QuarterR(A, m, k), v)), QuarterQ(A, m, k)))
\* ---- (x, y) / z with the derivative of x, y, z given by the rows of g: over z^2
DDehom(c, g) == LET n == Len(c) IN [r \in 1..(n - 1) |-> VSub(VScale(c[n], g[r]), VScale(c[r], g[n]))]
\* ---- the distortion polynomials: <<factor, coefficient (0: none), power of x, power of y>>
DistX == <<<<1, 0, 1, 0>>, <<1, 1, 3, 0>>, <<1, 1, 1, 2>>, <<1, 2, 5, 0>>, <<2, 2, 3, 2>>, <<1, 2, 1, 4>>, <<2, 3, 1, 1>>, <<3, 4, 2, 0>>, <<1, 4, 0, 2>>>>
DistY == <<<<1, 0, 0, 1>>, <<1, 1, 2, 1>>, <<1, 1, 0, 3>>, <<1, 2, 4, 1>>, <<2, 2, 2, 3>>, <<1, 2, 0, 5>>, <<2, 4, 1, 1>>, <<1, 3, 2, 0>>, <<3, 3, 0, 2>>>>
Dist(r) == IF r = 1 THEN DistX ELSE DistY
Keep(s, T(_)) == SelectSeq(s, T)
DX(s) == LET t(a) == a[3] > 0 IN [i \in 1..Len(Keep(s, t)) |-> LET a == Keep(s, t)[i] IN <<a[1]*a[3], a[2], a[3] - 1, a[4]>>]
DY(s) == LET t(a) == a[4] > 0 IN [i \in 1..Len(Keep(s, t)) |-> LET a == Keep(s, t)[i] IN <<a[1]*a[4], a[2], a[3], a[4] - 1>>]
\* derivative by coefficient k: the terms that contain it
DK(s, k) == LET t(a) == a[2] = k IN [i \in 1..Len(Keep(s, t)) |-> LET a == Keep(s, t)[i] IN <<a[1], 0, a[3], a[4]>>]
\* value at integers
Poly(s, d, x, y) == Sum([i \in 1..Len(s) |-> s[i][1] * (IF s[i][2] = 0 THEN 1 ELSE d[s[i][2]]) * Pow(x, s[i][3]) * Pow(y, s[i][4])])
\* value at expressions: coefficients d / e
PolyX(s, d, e, x, y) == Sm([i \in 1..Len(s) |-> Pr(<<s[i][1]>> \o (IF s[i][2] = 0 THEN <<>> ELSE <<d[s[i][2]], Rcp(e)>>)
                                                    \o [j \in 1..s[i][3] |-> x] \o [j \in 1..s[i][4] |-> y])])
\* ---- a x - x b: value, derivative by x, by a, by b
HecV(a, b, x) == VSub(QMul(a, x), QMul(x, b))
HecX(a, b) == Trans([i \in 1..4 |-> HecV(a, b, E4[i])])
HecA(x) == Trans([i \in 1..4 |-> QMul(E4[i], x)])
HecB(x) == Trans([i \in 1..4 |-> VNeg(QMul(x, E4[i]))])
\* ---- v / |v|: derivative over |v|^3
DNormalize(v) == MAdd(Diag([i \in 1..Len(v) |-> Norm2(v)]), MScale(-1, Outer(v, v)))
\* ---- motion: the factor t^i / i! of derivative i
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
=============================================================================
