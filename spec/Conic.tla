------------------------------- MODULE Conic -------------------------------
(* Plane conics <<a, b, c, d, e, f>>: the curve a x^2 + b x y + c y^2 +     *)
(* d x + e y + f = 0, and quadrics in space. Everything is exact over the   *)
(* integers; a register is a conic over a common denominator.               *)
EXTENDS Lin
\* the value of the polynomial at (x, y) / k, over k^2
Eval(q, x, y, k) == q[1]*x*x + q[2]*x*y + q[3]*y*y + (q[4]*x + q[5]*y)*k + q[6]*k*k
\* twice the symmetric matrix, four times its determinant, four times the determinant of the quadratic part
Mat2(q) == <<<<2*q[1], q[2], q[4]>>, <<q[2], 2*q[3], q[5]>>, <<q[4], q[5], 2*q[6]>>>>
Det4(q) == 4*q[1]*q[3]*q[6] + q[2]*q[4]*q[5] - q[1]*q[5]*q[5] - q[3]*q[4]*q[4] - q[6]*q[2]*q[2]
Disc(q) == 4*q[1]*q[3] - q[2]*q[2]
FromMat(m) == <<m[1][1], m[1][2] + m[2][1], m[2][2], m[1][3] + m[3][1], m[2][3] + m[3][2], m[3][3]>>
\* a conic over a denominator
Norm(v, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == TLCEval(Gcd(GcdSeq(v, 6), d))
              IN  [v |-> VScale(s, VDiv(v, g)), d |-> (s * d) \div g]
\* the curve moved by t / k, stretched by n / m along the axes, mirrored so that row 0 becomes row h - 1
Translate(q, t, k) == <<k*k*q[1], k*k*q[2], k*k*q[3],
                        k*(k*q[4] - 2*q[1]*t[1] - q[2]*t[2]), k*(k*q[5] - q[2]*t[1] - 2*q[3]*t[2]), Eval(q, -t[1], -t[2], k)>>     \* over k^2
Scale(q, s, m) == <<q[1]*m*m*s[2]*s[2], q[2]*m*m*s[1]*s[2], q[3]*m*m*s[1]*s[1],
                    q[4]*m*s[1]*s[2]*s[2], q[5]*m*s[1]*s[1]*s[2], q[6]*s[1]*s[1]*s[2]*s[2]>>       \* stretched by s / m, over (s1 s2)^2
Flip(q, h) == LET m == h - 1 IN <<q[1], -q[2], q[3], q[4] + q[2]*m, -q[5] - 2*q[3]*m, q[6] + q[5]*m + q[3]*m*m>>
\* the conic of the tangent lines: the inverse matrix, over Det4
Dual(q) == <<4*q[3]*q[6] - q[5]*q[5], 2*(q[4]*q[5] - 2*q[2]*q[6]), 4*q[1]*q[6] - q[4]*q[4],
             2*(q[2]*q[5] - 2*q[3]*q[4]), 2*(q[2]*q[4] - 2*q[1]*q[5]), Disc(q)>>
\* what kind of curve
IsEll(q) == Disc(q) > 0
IsHyp(q) == Disc(q) < 0
RealEll(q) == Disc(q) > 0 /\ Det4(q) # 0 /\ (q[1] + q[3] > 0 <=> Det4(q) < 0)
Pos(q) == IF q[1] + q[3] < 0 THEN VNeg(q) ELSE q
\* ---- measures of the curve
Centre(q) == Vx(<<q[2]*q[5] - 2*q[3]*q[4], q[2]*q[4] - 2*q[1]*q[5]>>, Disc(q))
\* h = difference of the eigenvalues, over the sum of the coefficients
Hyp(q) == [sq |-> (q[1] - q[3])*(q[1] - q[3]) + q[2]*q[2], d |-> 1]
Sum2(q) == Sm(<<q[1] + q[3], Hyp(q)>>)
\* of an ellipse with positive coefficients: squared semi-axes, longer one first
Major2(q) == Pr(<<-2 * Det4(q), Sum2(q), Rcp(Disc(q)), Rcp(Disc(q))>>)
Minor2(q) == Pr(<<-2 * Det4(q), Rcp(Sum2(q)), Rcp(Disc(q))>>)
Root(x) == Fn("sqrt", <<x>>)
Area(q) == Pr(<<Fn("pi", <<>>), -2 * Det4(q), Rcp(Disc(q)), Rcp(Root(Disc(q)))>>)
\* direction of the longer axis: cosine and sine of twice the angle
Dir(q) == <<Pr(<<q[3] - q[1], Rcp(Hyp(q))>>), Pr(<<-q[2], Rcp(Hyp(q))>>)>>
IsCirc(q) == q[1] = q[3] /\ q[2] = 0
\* squared eccentricity of any conic that is not degenerate
Ecc2(q) == LET s == IF Det4(q) < 0 THEN 1 ELSE -1 IN Pr(<<2, Hyp(q), Rcp(Sm(<<s * (q[1] + q[3]), Hyp(q)>>))>>)
\* bounding box: (m -+ sqrt(n)) / (2 Disc)
Lim(m, n, dd) == <<Pr(<<Sm(<<m, Pr(<<-1, Root(n)>>)>>), Rcp(2 * dd)>>), Pr(<<Sm(<<m, Root(n)>>), Rcp(2 * dd)>>)>>
LimY(q) == Lim(2 * (q[2]*q[4] - 2*q[1]*q[5]), Pr(<<-16, q[1], Det4(q)>>), Disc(q))
LimX(q) == Lim(2 * (q[2]*q[5] - 2*q[3]*q[4]), Pr(<<-16, q[3], Det4(q)>>), Disc(q))
\* with the row y / k: a x^2 + B x + C = 0
RowB(q, y, k) == q[2]*y + q[4]*k                       \* over k
RowC(q, y, k) == q[3]*y*y + q[5]*y*k + q[6]*k*k        \* over k^2
RowDisc(q, y, k) == RowB(q, y, k)*RowB(q, y, k) - 4*q[1]*RowC(q, y, k)
\* ---- quadrics: the symmetric matrix of the tangent planes <<a, b, c, f, g, h, p, q, r, d>>
QMat(q) == <<<<q[1], q[4], q[5], q[7]>>, <<q[4], q[2], q[6], q[8]>>, <<q[5], q[6], q[3], q[9]>>, <<q[7], q[8], q[9], q[10]>>>>
\* ellipsoid: semi-axes and centre
OfEll(e) == <<e[1]*e[1] - e[4]*e[4], e[2]*e[2] - e[5]*e[5], e[3]*e[3] - e[6]*e[6], -e[4]*e[5], -e[4]*e[6], -e[5]*e[6], -e[4], -e[5], -e[6], -1>>
\* spheroid that stands on the ground: horizontal and vertical semi-axis, position on the ground
OfSpheroid(s) == <<s[1], s[1], s[2], s[3], s[4], s[2]>>
\* the tangent lines of the outline in the image of a 3x4 camera, and the outline itself (Dual over Det4)
Lines(p, q) == FromMat(MatMul(MatMul(p, QMat(q)), Trans(p)))
=============================================================================
