------------------------------- MODULE Camera -------------------------------
(* Pinhole cameras K [R|t] looking along the negative z axis (K33 = -1),    *)
(* exactly: integer intrinsics, integer quaternion, integer translation.    *)
(* Images, epipolar geometry, homographies and the OpenGL conventions.      *)
EXTENDS Lin
The(S) == CHOOSE v \in S : TRUE
\* intrinsics <<fx, skew, a, fy, b>>
KM(k) == << <<k[1], k[2], k[3]>>, <<0, k[4], k[5]>>, <<0, 0, -1>> >>
Cam(k, q, t) == [k |-> k, q |-> q, t |-> t]
\* [R|t] and K [R|t], both times QN(q)
RT(c) == The({TLCEval([i \in 1..3 |-> r[i] \o <<n * c.t[i]>>]) : r \in {RotM(c.q)}, n \in {QN(c.q)}})
PN(c) == The({MatMul(k, m) : k \in {KM(c.k)}, m \in {RT(c)}})
Hom(v) == Append(v, 1)
\* homogeneous image of a point; the last component is positive in front of the camera
Img(c, x) == The({MatVec(p, h) : p \in {PN(c)}, h \in {Hom(x)}})
Depth2(c, x) == LET i == Img(c, x) IN i[3]
Front(c, x) == Img(c, x)[3] >= QN(c.q)
Skew(t) == << <<0, -t[3], t[2]>>, <<t[3], 0, -t[1]>>, <<-t[2], t[1], 0>> >>
PrimM(m) == The({IF g <= 1 THEN m ELSE TLCEval([i \in 1..Len(m) |-> VDiv(m[i], g)]) : g \in {GcdMat(m, Len(m), 0)}})
\* motion from the frame of camera a to that of camera b: RelR / (na nb), RelT / (na nb)
Mul2(a, b) == The({MatMul(x, y) : x \in {a}, y \in {b}})
RelR(a, b) == Mul2(RotM(b.q), Trans(RotM(a.q)))
RelT(a, b) == The({VSub(VScale(QN(a.q) * QN(b.q), b.t), MatVec(r, a.t)) : r \in {RelR(a, b)}})
Ess(a, b) == The({PrimM(m) : m \in {Mul2(Skew(The({Prim(t) : t \in {RelT(a, b)}})), RelR(a, b))}})
Fund(a, b) == The({PrimM(m) : m \in {Mul2(Trans(Adj3(KM(b.k))), Mul2(Ess(a, b), Adj3(KM(a.k))))}})
Bilin(y, f, x) == Dot(y, MatVec(f, x))
Proportional(a, b) == \A i, j \in 1..Len(a) : a[i] * b[j] = a[j] * b[i]
SamePoint(a, b) == IsZero(Cross(a, b))
\* turning the image of height h upside down
Flip(k, h) == <<k[1], k[2], k[3], -k[4], -k[5] - (h - 1)>>
=============================================================================
