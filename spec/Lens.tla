------------------------------- MODULE Lens -------------------------------
(* Lens distortion of camera intrinsics, exact over the rationals.         *)
(* A lens is k = <<k1..k6>> (radial: 1 + k1 r^2 + k2 r^4 + k3 r^6 over     *)
(* 1 + k4 r^2 + k5 r^4 + k6 r^6) and p = <<p1, p2>> (tangential), integers *)
(* over C; a point of the sensor is <<a, b>> over D.                       *)
EXTENDS Lin
CONSTANTS C, D
The(S) == CHOOSE v \in S : TRUE
R2(p) == p[1] * p[1] + p[2] * p[2]                 \* over D^2
DS == D * D
\* a polynomial 1 + a r^2 + b r^4 + c r^6 at R: numerator over C * D^6, and its derivative by r^2 over C * D^4
Den == C * DS * DS * DS
Poly(k, r) == Den + k[1] * r * DS * DS + k[2] * r * r * DS + k[3] * r * r * r
PolyD(k, r) == k[1] * DS * DS + 2 * k[2] * r * DS + 3 * k[3] * r * r
Up(l, p) == Poly(<<l.k[1], l.k[2], l.k[3]>>, R2(p))
Lo(l, p) == Poly(<<l.k[4], l.k[5], l.k[6]>>, R2(p))
UpD(l, p) == PolyD(<<l.k[1], l.k[2], l.k[3]>>, R2(p))
LoD(l, p) == PolyD(<<l.k[4], l.k[5], l.k[6]>>, R2(p))
\* tangential part: numerators over C * D^2
Tan(l, p) == <<2 * l.p[1] * p[1] * p[2] + l.p[2] * (R2(p) + 2 * p[1] * p[1]),
               2 * l.p[2] * p[1] * p[2] + l.p[1] * (R2(p) + 2 * p[2] * p[2])>>
\* the distorted point: component i is DistN[i] / DistD
DistN(l, p) == LET t == Tan(l, p) IN TLCEval([i \in 1..2 |-> p[i] * Up(l, p) * C * D + t[i] * Lo(l, p)])
DistD(l, p) == C * DS * Lo(l, p)
\* the same as expressions, for larger numbers
DistX(l, p) == The({The({TLCEval([i \in 1..2 |-> Sm(<<Pr(<<Nx(p[i], D), Nx(u, lo)>>), Nx(t[i], C * DS)>>)]) : t \in {Tan(l, p)}}) : u \in {Up(l, p)}, lo \in {Lo(l, p)}})
\* derivative of the ratio U/L by r^2
RatioD(l, p) == The({Sm(<<Pr(<<Nx(UpD(l, p), C * DS * DS), Nx(Den, lo)>>), Pr(<<Nx(-Up(l, p), lo), Nx(LoD(l, p), C * DS * DS), Nx(Den, lo)>>)>>) : lo \in {Lo(l, p)}})
\* partial derivatives of the tangential part, over C * D
TanD(l, p) == <<6 * l.p[2] * p[1] + 2 * l.p[1] * p[2], 2 * l.p[1] * p[1] + 2 * l.p[2] * p[2],
                2 * l.p[1] * p[1] + 2 * l.p[2] * p[2], 2 * l.p[2] * p[1] + 6 * l.p[1] * p[2]>>
JacX(l, p) == The({The({TLCEval([n \in 1..4 |-> LET i == IF n <= 2 THEN 1 ELSE 2 j == IF n % 2 = 1 THEN 1 ELSE 2 IN
      Sm(<<IF i = j THEN Nx(Up(l, p), Lo(l, p)) ELSE 0, Pr(<<2, rd, Nx(p[i] * p[j], DS)>>), Nx(td[n], C * D)>>)]) : td \in {TanD(l, p)}}) : rd \in {RatioD(l, p)}})
\* derivative by (k1, k2, p1, p2): 2 x 4
JacDX(p) == The({<<Nx(p[1] * r, DS * D), Nx(p[1] * r * r, DS * DS * D), Nx(2 * p[1] * p[2], DS), Nx(r + 2 * p[1] * p[1], DS),
              Nx(p[2] * r, DS * D), Nx(p[2] * r * r, DS * DS * D), Nx(r + 2 * p[2] * p[2], DS), Nx(2 * p[1] * p[2], DS)>> : r \in {R2(p)}})
\* the distorted radius grows with the radius up to r^2 = R/D^2, and the lens has no pole there
Monotone(l, rmax) == \A r \in 0..rmax : LET p == <<l.k[1], l.k[2], l.k[3]>> q == <<l.k[4], l.k[5], l.k[6]>> IN
   /\ 4 * Poly(p, r) > 3 * Den /\ 4 * Poly(p, r) < 5 * Den /\ 4 * Poly(q, r) > 3 * Den /\ 4 * Poly(q, r) < 5 * Den
   /\ 4 * Abs(2 * r * PolyD(p, r) * DS) < Den * DS /\ 4 * Abs(2 * r * PolyD(q, r) * DS) < Den * DS

\* intrinsics <<fx, s, cx, fy, cy, k33>>, k33 = 1 or -1 (the camera looks along -z)
KMat(k) == << <<k[1], k[2], k[3]>>, <<0, k[4], k[5]>>, <<0, 0, k[6]>> >>
\* image of the sensor point <<a, b>> over d
Pixel(k, p, d) == Vx(<<k[1] * p[1] + k[2] * p[2] + k[3] * k[6] * d, k[4] * p[2] + k[5] * k[6] * d>>, d)
PixelX(k, x) == <<Sm(<<Pr(<<k[1], x[1]>>), Pr(<<k[2], x[2]>>), k[3] * k[6]>>), Sm(<<Pr(<<k[4], x[2]>>), k[5] * k[6]>>)>>
\* opening angles in degrees: twice the angle of half the size at the focal length
Angle(w, f) == Pr(<<2, Fn("deg", <<Fn("atan", <<Nx(w, 2 * f)>>)>>)>>)
Diagonal(w, h, fx, fy) == Pr(<<2, Fn("deg", <<Fn("atan", <<Fn("sqrt", <<Sm(<<Pr(<<Nx(w, 2 * fx), Nx(w, 2 * fx)>>), Pr(<<Nx(h, 2 * fy), Nx(h, 2 * fy)>>)>>)>>)>>)>>)>>)

\* the record of a calibrated camera
Unknown == 0
CalibType(rs) == CASE rs = 2 -> 1 [] rs = 3 -> 2 [] rs = 6 -> 3 [] rs = 4 -> 4 [] OTHER -> Unknown
Cam(type, dim, k, rs, rad, tan) == [type |-> type, dim |-> dim, k |-> k, rs |-> rs, rad |-> rad, tan |-> tan]
Pad(s) == TLCEval([i \in 1..6 |-> IF i <= Len(s) THEN s[i] ELSE 0])
NoCam == Cam(Unknown, <<0, 0>>, <<1, 0, 0, 1, 0, 1>>, 0, Zero(6), <<0, 0>>)
Fisheye(c) == c.type = 4
LensOf(c) == [k |-> c.rad, p |-> c.tan]
Flip(c) == [c EXCEPT !.k = <<@[1], @[2], -@[3], @[4], -@[5], -@[6]>>]
\* an archive carries the parameters in use; the type follows from their number
Written(c) == [c EXCEPT !.type = CalibType(c.rs)]
=============================================================================
