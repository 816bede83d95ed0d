------------------------------ MODULE MCConic ------------------------------
(* Exhaustive laws of plane conics on a small grid of conics, and of the    *)
(* images of ellipsoids against rays that touch them.                       *)
EXTENDS Conic
CONSTANT B
VARIABLES q, t, e
vars == <<q, t, e>>
I == -B..B
T == (-1..1) \X (-1..1)
No == <<>>
Init == \/ /\ q \in {<<a, b, c, d, f, g>> : a \in I, b \in I, c \in I, d \in I, f \in I, g \in I} /\ t \in T /\ e = No
        \/ /\ q = No /\ t = No /\ e \in {<<a, b, c, x, y, z>> : a \in 1..2, b \in 1..2, c \in 1..2, x \in -1..1, y \in -1..1, z \in 3..4}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pts == (-2..2) \X (-2..2)
Prop(a, b) == \A i \in 1..6 : \A j \in 1..6 : a[i] * b[j] = a[j] * b[i]
Moves == q # No =>
   /\ \A p \in Pts : Eval(Translate(q, t, 1), p[1], p[2], 1) = Eval(q, p[1] - t[1], p[2] - t[2], 1)
   /\ \A p \in Pts : Eval(Translate(q, t, 2), p[1], p[2], 1) = Eval(q, 2*p[1] - t[1], 2*p[2] - t[2], 2)
   /\ \A p \in Pts : Eval(Scale(q, <<2, -1>>, 1), 2*p[1], -p[2], 1) = 4 * Eval(q, p[1], p[2], 1)
   /\ \A p \in Pts : Eval(Flip(q, 6), p[1], 5 - p[2], 1) = Eval(q, p[1], p[2], 1)
   /\ Flip(Flip(q, 4), 4) = q
   /\ Translate(Translate(q, t, 1), VNeg(t), 1) = q
   /\ Det4(Translate(q, t, 1)) = Det4(q) /\ Disc(Translate(q, t, 1)) = Disc(q) /\ Det4(Flip(q, 5)) = Det4(q)
   /\ Norm(Scale(Scale(q, <<2, 1>>, 1), <<1, 2>>, 2), 16) = Norm(q, 1)
Mats == q # No => /\ Det3(Mat2(q)) = 2 * Det4(q)
                  /\ FromMat(Mat2(q)) = VScale(2, q)
                  /\ \A p \in Pts : 2 * Eval(q, p[1], p[2], 1) = Dot(<<p[1], p[2], 1>>, MatVec(Mat2(q), <<p[1], p[2], 1>>))
\* (matrix of the dual) x (matrix) is the identity; the tangents of points of the curve belong to the dual
Duals == q # No => /\ MatMul(Mat2(Dual(q)), Mat2(q)) = MScale(4 * Det4(q), Ident(3))
                   /\ Dual(Dual(q)) = VScale(16 * Det4(q), q)
                   /\ \A p \in Pts : Eval(q, p[1], p[2], 1) = 0 =>
                        \E l \in {MatVec(Mat2(q), <<p[1], p[2], 1>>)} : Dot(l, MatVec(Mat2(Dual(q)), l)) = 0
\* the ends of the bounding box touch the curve; the centre is the middle
Boxes == q # No =>
   /\ 4*(q[2]*q[4] - 2*q[1]*q[5])*(q[2]*q[4] - 2*q[1]*q[5]) + 4 * Disc(q) * (q[4]*q[4] - 4*q[1]*q[6]) = -16 * q[1] * Det4(q)
   /\ 4*(q[2]*q[5] - 2*q[3]*q[4])*(q[2]*q[5] - 2*q[3]*q[4]) + 4 * Disc(q) * (q[5]*q[5] - 4*q[3]*q[6]) = -16 * q[3] * Det4(q)
   /\ (Disc(q) # 0 => \E c \in {Centre(q)} : \E m \in {MatVec(Mat2(q), <<c.v[1], c.v[2], c.d>>)} : m[1] = 0 /\ m[2] = 0)
Kinds == q # No => (RealEll(q) => (\E n \in 1..1 : Disc(Pos(q)) > 0 /\ Det4(Pos(q)) < 0)) /\ (RealEll(q) => q[1] * Det4(q) < 0 /\ q[3] * Det4(q) < 0)
                 /\ (RealEll(Pos(q)) <=> RealEll(q))
\* camera [I | 0] above the origin: the ray through the pixel (x, y) touches the ellipsoid iff the pixel is on the outline
W(el) == <<el[2]*el[2]*el[3]*el[3], el[1]*el[1]*el[3]*el[3], el[1]*el[1]*el[2]*el[2]>>
Touch(el, x, y) == LET w == W(el)
                       r == <<x, y, 1>>
                       m == <<el[4], el[5], el[6]>>
                       rm == Sum([i \in 1..3 |-> w[i]*r[i]*m[i]])
                       mm == Sum([i \in 1..3 |-> w[i]*m[i]*m[i]]) - el[1]*el[1]*el[2]*el[2]*el[3]*el[3]
                       rr == Sum([i \in 1..3 |-> w[i]*r[i]*r[i]])
                   IN  rm*rm - mm*rr
Cam == <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>>>
Images == e # No => \E c \in {Dual(Lines(Cam, OfEll(e)))} : \A p \in Pts, r \in Pts :
             Eval(c, p[1], p[2], 1) * Touch(e, r[1], r[2]) = Eval(c, r[1], r[2], 1) * Touch(e, p[1], p[2])
Inv == Moves /\ Mats /\ Duals /\ Boxes /\ Kinds /\ Images
=============================================================================
