-------------------------------- MODULE Lin --------------------------------
(* Exact linear algebra over the integers: vectors, matrices, rationals and *)
(* rotations. A rotation is a primitive integer quaternion <<x,y,z,w>>; the *)
(* rotation it denotes is that of the unit quaternion of the same direction *)
(* and its matrix is RotM(q) / QN(q), rational throughout.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN a ELSE Gcd2(b, TLCEval(a % b))
Gcd(a, b) == Gcd2(Abs(a), Abs(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (Abs(a) \div Gcd(a, b)) * Abs(b)
RECURSIVE GcdSeq(_, _)
GcdSeq(s, k) == IF k = 0 THEN 0 ELSE Gcd(GcdSeq(s, k - 1), s[k])
RECURSIVE GcdMat(_, _, _)
GcdMat(m, k, d) == IF k = 0 \/ d = 1 THEN d ELSE GcdMat(m, k - 1, Gcd(d, GcdSeq(m[k], Len(m[k]))))
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
Sum(s) == SumTo(s, Len(s))
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 0 THEN 0 ELSE Max2(MaxTo(s, k - 1), Abs(s[k]))
MaxAbs(s) == MaxTo(s, Len(s))
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)

\* vectors
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
VScale(k, a) == TLCEval([i \in 1..Len(a) |-> k * a[i]])
VNeg(a) == VScale(-1, a)
VDiv(a, k) == TLCEval([i \in 1..Len(a) |-> a[i] \div k])
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Norm2(a) == Dot(a, a)
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Zero(n) == TLCEval([i \in 1..n |-> 0])
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Prim(a) == LET g == TLCEval(GcdSeq(a, Len(a))) IN IF g <= 1 THEN a ELSE VDiv(a, g)

\* matrices: sequences of rows
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Col(m, j) == TLCEval([i \in 1..Rows(m) |-> m[i][j]])
MatVec(m, v) == TLCEval([i \in 1..Rows(m) |-> Dot(m[i], v)])
Trans(m) == TLCEval([j \in 1..Cols(m) |-> Col(m, j)])
MatMul(a, b) == LET bt == Trans(b) IN TLCEval([i \in 1..Rows(a) |-> [j \in 1..Cols(b) |-> Dot(a[i], bt[j])]])
MAdd(a, b) == TLCEval([i \in 1..Rows(a) |-> VAdd(a[i], b[i])])
MScale(k, a) == TLCEval([i \in 1..Rows(a) |-> VScale(k, a[i])])
Ident(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
Diag(d) == TLCEval([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]])
Outer(a, b) == TLCEval([i \in 1..Len(a) |-> VScale(a[i], b)])
Flat3(m) == m[1] \o m[2] \o m[3]
RECURSIVE FlatTo(_, _)
FlatTo(m, k) == IF k = 0 THEN <<>> ELSE FlatTo(m, k - 1) \o m[k]
Flat(m) == FlatTo(m, Len(m))
Det3(m) == Dot(m[1], Cross(m[2], m[3]))
Det2(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
\* adjugate: Adj3(m) * m = Det3(m) * I
Adj3(m) == Trans(<<Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2])>>)
RECURSIVE Minor(_, _, _)
Minor(m, r, c) == LET rs == [i \in 1..(Len(m) - 1) |-> IF i < r THEN i ELSE i + 1]
                      cs == [i \in 1..(Len(m) - 1) |-> IF i < c THEN i ELSE i + 1]
                  IN  [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[rs[i]][cs[j]]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE Sum([j \in 1..Len(m) |-> IF m[1][j] = 0 THEN 0
                     ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor(m, 1, j))])
AdjN(m) == IF Len(m) = 1 THEN << <<1>> >> ELSE [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(m, j, i))]]

\* quaternions <<x,y,z,w>>
QId == <<0, 0, 0, 1>>
QConj(q) == <<-q[1], -q[2], -q[3], q[4]>>
QNeg(q) == VNeg(q)
QN(q) == Norm2(q)
QIm(q) == <<q[1], q[2], q[3]>>
QMul(p, q) == << p[4]*q[1] + p[1]*q[4] + p[2]*q[3] - p[3]*q[2],
                 p[4]*q[2] - p[1]*q[3] + p[2]*q[4] + p[3]*q[1],
                 p[4]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[4],
                 p[4]*q[4] - p[1]*q[1] - p[2]*q[2] - p[3]*q[3] >>
QM(p, q) == Prim(QMul(p, q))
RECURSIVE QPow(_, _)
QPow(q, k) == IF k = 0 THEN QId ELSE QMul(QPow(q, k - 1), q)
SameRot(p, q) == Prim(p) = Prim(q) \/ Prim(p) = VNeg(Prim(q))
\* rotation matrix scaled by the norm
RotM(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
   << <<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
      <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
      <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>> >>

\* rigid transforms: p -> R(q) p + t / d
Pose(q, t, d) == [q |-> q, t |-> t, d |-> d]
PNorm(p) == LET g == Gcd(GcdSeq(p.t, 3), p.d) IN Pose(Prim(p.q), VDiv(p.t, g), p.d \div g)
PId == Pose(QId, <<0, 0, 0>>, 1)
\* the image of the point v / e: <<numerators, denominator>>
PApply(p, v, e) == LET n == QN(p.q)
                       r == MatVec(RotM(p.q), v)          \* over n * e
                       g == Gcd(GcdSeq(r, 3), n * e)
                       rr == VDiv(r, g)
                       rd == (n * e) \div g
                       l == Lcm(rd, p.d)
                   IN  <<VAdd(VScale(l \div rd, rr), VScale(l \div p.d, p.t)), l>>
PMul(a, b) == LET x == PApply(a, b.t, b.d) IN PNorm(Pose(QM(a.q, b.q), x[1], x[2]))
PInv(a) == LET c == QConj(a.q)
               x == PApply(Pose(c, <<0, 0, 0>>, 1), VNeg(a.t), a.d)
           IN  PNorm(Pose(c, x[1], x[2]))
PSame(a, b) == SameRot(a.q, b.q) /\ \A i \in 1..3 : a.t[i] * b.d = b.t[i] * a.d
PFits(p, k) == MaxAbs(p.q) <= k /\ QN(p.q) <= k /\ MaxAbs(p.t) <= 1000 /\ p.d <= 1000
\* the rotations of the cube (as quaternions, both signs)
Octa == {q \in (-1..1) \X (-1..1) \X (-1..1) \X (-1..1) :
            LET n == QN(q) IN n = 1 \/ n = 2 \/ n = 4}
\* wire format
Qx(q) == [q |-> q]
Vx(v, d) == [v |-> v, d |-> d]
Mx(m, d) == [v |-> Flat(m), d |-> d]
Nx(n, d) == [n |-> n, d |-> d]
Px(p) == <<Qx(p.q), Vx(p.t, p.d)>>
Fn(f, s) == [fn |-> f, x |-> s]
Sm(s) == Fn("sum", s)
Pr(s) == Fn("prod", s)
Rcp(a) == Fn("inv", <<a>>)
Tol(t, x) == [tol |-> t, x |-> x]
Exc == <<[exc |-> ""]>>
=============================================================================
