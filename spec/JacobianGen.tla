---------------------------- MODULE JacobianGen ----------------------------
(* Evaluations of functions and of their derivatives at random arguments.   *)
EXTENDS Jacobian, Gen
R(lo, hi) == RandomElement(lo..hi)
The(S) == CHOOSE a \in S : TRUE
Quats(n) == {q \in (-5..5) \X (-5..5) \X (-5..5) \X (-5..5) : QN(q) \in {k*k : k \in 1..n} /\ GcdSeq(q, 4) = 1}
UQ7 == TLCEval(Quats(7))
UQ5 == TLCEval(Quats(5))
UQ3 == TLCEval(Quats(3))
K(q) == The({k \in 1..7 : k*k = QN(q)})
Axes == {<<<<1, 0, 0>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<0, 0, 1>>, 1>>, <<<<3, 0, 4>>, 5>>, <<<<0, -4, 3>>, 5>>, <<<<1, 2, -2>>, 3>>, <<<<-2, 1, 2>>, 3>>, <<<<2, 3, 6>>, 7>>, <<<<-6, 2, 3>>, 7>>}
V(n, m) == TLCEval([i \in 1..n |-> R(-m, m)])
M(r, c, m) == TLCEval([i \in 1..r |-> [j \in 1..c |-> R(-m, m)]])
Qa(q) == [qs |-> q]
T(x) == Tol(7, x)
Ts(s) == [i \in 1..Len(s) |-> T(s[i])]
TM(m) == Ts(Flat(m))
Rec(op, args, exp) == Record(op, args, exp)
Nothing == Record("nothing", <<>>, <<>>)
\* how the function is called: 0 evaluate and jacobian, 1 evaluateWithJacobian
DoQuatRot == \E q \in {RandomElement(UQ7)}, v \in {V(3, 6)}, d \in {R(1, 4)}, w \in {R(0, 2)} :
   \* 2: the function of two arguments, with the derivative by the vector
   Rec("quatrot", <<w, Qa(q), Vx(v, d)>>, <<T(Vx(RotQ(q, v), QN(q)*d)), T(Mx(DQ(q, v), K(q)*d))>> \o (IF w = 2 THEN <<T(Mx(RotM(q), QN(q)))>> ELSE <<>>))
DoQuatErr == \E q \in {RandomElement(UQ7)}, v \in {V(3, 6)}, d \in {R(1, 4)} : Rec("quaterr", <<Qa(q), Vx(v, d)>>, <<T(Mx(DErr(q, v), QN(q)*d))>>)
\* a rotation vector: angle n / 16 about a unit axis
C(th) == Fn("cos", <<th>>)
S(th) == Fn("sin", <<th>>)
OneMin(x) == Sm(<<1, Pr(<<-1, x>>)>>)
LieVal(A, m, v, th) == LET l == LieV(A, m, v, C(th), S(th), OneMin(C(th)))
                       IN  [i \in 1..3 |-> Sm([k \in 1..3 |-> Pr(<<l[k][1], Nx(l[k][2][i], m*m)>>)])]
LieJac(A, m, v, th) == LET u == Pr(<<S(th), Rcp(th)>>) ww == Pr(<<OneMin(C(th)), Rcp(th)>>)
                           c(j) == LET l == TLCEval(LieD(A, m, v, j, C(th), S(th), OneMin(C(th)), u, OneMin(u), ww))
                                   IN  TLCEval([i \in 1..3 |-> Sm([k \in 1..9 |-> Pr(<<l[k][1], l[k][2], Nx(l[k][3][i], m*m*m*m)>>)])])
                       IN  Cols3(c)
DoLie == \E ax \in {RandomElement(Axes)}, v \in {V(3, 6)}, n \in {R(-40, 40)}, w \in {R(0, 2)} : \E A \in {ax[1]}, m \in {ax[2]} :
   IF n = 0 THEN Rec("lie", <<w, Vx(<<0, 0, 0>>, 1), Vx(v, 1)>>, <<T(Vx(v, 1)), T(Mx(MScale(-1, Skew(v)), 1))>>)
   ELSE \E th \in {Nx(n, 16)} : Rec("lie", <<w, Vx(VScale(n, A), 16*m), Vx(v, 1)>>, Ts(LieVal(A, m, v, th)) \o TM(LieJac(A, m, v, th)))
\* ---- projections
DoDehom == \E n \in {R(2, 5)}, pr \in {RandomElement({"d", "f"})}, w \in {R(0, 1)}, d \in {R(1, 4)} : \E c \in {V(n, 9)} :
   IF c[n] = 0 THEN Nothing
   ELSE Rec("dehom", <<pr, w, n, Vx(c, d)>>, <<Tol(IF pr = "d" THEN 8 ELSE 4, Vx(SubSeq(c, 1, n - 1), c[n])),
                                              Tol(IF pr = "d" THEN 8 ELSE 4, Mx(MScale(d, DDehom(c, Ident(n))), c[n]*c[n]))>>)
DoNormalizePose == \E t \in {V(3, 9)}, q \in {RandomElement(UQ7)}, s \in {R(1, 4)}, d \in {R(1, 4)} :
   \* a quaternion of length s k / d
   Rec("projnorm", <<Vx(t, 1), Vx(VScale(s, q), d)>>, <<T(Vx(VScale(d*d, t), s*s*QN(q))), T(Vx(q, K(q)))>>)
Cam(h) == TLCEval([r \in 1..3 |-> [c \in 1..4 |-> IF c = 4 THEN R(-9, 9) ELSE IF r = c THEN R(1, 5) ELSE R(-2, 2)]])
Cut(m) == [r \in 1..3 |-> SubSeq(m[r], 1, 3)]
Hom(p, v) == VAdd(MatVec(Cut(p), v), Col(p, 4))
Far(c, d) == Abs(c[3]) * 2 >= d
DoSingle == \E ps \in {TLCEval([i \in 1..R(1, 4) |-> Cam(hist)])}, v \in {V(3, 6)}, w \in {R(0, 1)} :
   IF \E i \in 1..Len(ps) : ~Far(Hom(ps[i], v), 1) THEN Nothing
   ELSE Rec("single", <<w, Len(ps), Mx(FlatTo(ps, Len(ps)), 1), Vx(v, 1)>>,
            [i \in 1..Len(ps) |-> T(Vx(SubSeq(Hom(ps[i], v), 1, 2), Hom(ps[i], v)[3]))]
            \o [i \in 1..Len(ps) |-> T(Mx(DDehom(Hom(ps[i], v), Cut(ps[i])), Hom(ps[i], v)[3]*Hom(ps[i], v)[3]))])
\* columns of a and b side by side
Beside(a, b) == TLCEval([r \in 1..Len(a) |-> a[r] \o b[r]])
\* camera matrix m (3x3 or 3x4) of the point v moved by the pose (q / k, t): the image over its third coordinate, and the derivative
\* by translation and quaternion (n = 4) or rotation error (n = 3)
Moved(q, t, v) == VAdd(RotQ(q, v), VScale(QN(q), t))                       \* over k^2
Img(m, q, t, v) == VAdd(MatVec(Cut(m), Moved(q, t, v)), IF Len(m[1]) = 4 THEN VScale(QN(q), Col(m, 4)) ELSE <<0, 0, 0>>)
DImg(m, q, v, n) == Beside(MScale(QN(q), Cut(m)), MatMul(Cut(m), IF n = 4 THEN MScale(K(q), DQ(q, v)) ELSE DErr(q, v)))
Rows2(c, g) == T(Mx(DDehom(c, g), c[3]*c[3]))
Pts(n) == TLCEval([i \in 1..n |-> V(3, 4)])
Seen(vis, ps, cams, q, t) == \A i \in 1..Len(vis) : Far(Img(cams[vis[i][2]], q, t, ps[vis[i][1]]), QN(q))
DoMulti == \E cam \in {Cut(Cam(hist))}, ps \in {Pts(R(1, 4))}, q \in {RandomElement(UQ5)}, t \in {V(3, 9)}, w \in {R(0, 2)} :
   IF \E i \in 1..Len(ps) : ~Far(Img(cam, q, t, ps[i]), QN(q)) THEN Nothing
   ELSE Rec("multi", <<w, Mx(cam, 1), Len(ps), Mx(ps, 1), Vx(t, 1), Qa(q)>>,
            (IF w = 2 THEN <<>> ELSE [i \in 1..Len(ps) |-> LET c == Img(cam, q, t, ps[i]) IN T(Vx(SubSeq(c, 1, 2), c[3]))])
            \o [i \in 1..Len(ps) |-> Rows2(Img(cam, q, t, ps[i]), DImg(cam, q, ps[i], IF w = 2 THEN 3 ELSE 4))])
\* observations: <<point, camera>>
Vis(np, nc) == TLCEval([i \in 1..R(1, 4) |-> <<R(1, np), R(1, nc)>>])
Zb(vis) == [i \in 1..Len(vis) |-> <<vis[i][1] - 1, vis[i][2] - 1>>]
DoMultiError == \E cams \in {TLCEval([i \in 1..R(1, 3) |-> Cam(hist)])}, ps \in {Pts(R(1, 3))}, q \in {RandomElement(UQ5)}, t \in {V(3, 9)} :
   \E vis \in {Vis(Len(ps), Len(cams))} :
   IF ~Seen(vis, ps, cams, q, t) THEN Nothing
   ELSE Rec("multierr", <<Len(cams), Mx(FlatTo(cams, Len(cams)), 1), Len(ps), Mx(ps, 1), Len(vis), Mx(Zb(vis), 1), Vx(t, 1), Qa(q)>>,
            [i \in 1..Len(vis) |-> Rows2(Img(cams[vis[i][2]], q, t, ps[vis[i][1]]), DImg(cams[vis[i][2]], q, ps[vis[i][1]], 3))])
\* rotations by quarter turns k about unit axes A / m: the rotation vector, and everything over m^2
Quarter(A, m, k) == [i \in 1..3 |-> Pr(<<Fn("pi", <<>>), Nx(k * A[i], 2 * m)>>)]
DoArt == \E cams \in {TLCEval([i \in 1..R(1, 3) |-> Cam(hist)])}, ps \in {Pts(R(1, 3))}, ax \in {RandomElement(Axes)}, k \in {R(-3, 3)}, t \in {V(3, 9)}, g \in {V(3, 3)}, w \in {R(0, 1)} :
   \E vis \in {Vis(Len(ps), Len(cams))}, rot \in {QuarterR(ax[1], ax[2], k)}, mm \in {ax[2] * ax[2]}, cg \in {IF w = 0 THEN <<0, 0, 0>> ELSE g} :
   \E im \in {TLCEval([i \in 1..Len(vis) |-> LET p == ps[vis[i][1]] m == cams[vis[i][2]] IN
        [c |-> VAdd(MatVec(Cut(m), VAdd(MatVec(rot, p), VScale(mm, t))), VScale(mm, Col(m, 4))),
         g |-> Beside(MScale(mm, Cut(m)), MatMul(Cut(m), MScale(-1, Skew(MatVec(rot, VSub(p, cg))))))]])} :
   IF \E i \in 1..Len(vis) : ~Far(im[i].c, mm) THEN Nothing
   ELSE Rec("art", <<w, Len(cams), Mx(FlatTo(cams, Len(cams)), 1), Len(ps), Mx(ps, 1), Len(vis), Mx(Zb(vis), 1), Vx(cg, 1), Vx(t, 1)>> \o Quarter(ax[1], ax[2], k),
            [i \in 1..Len(vis) |-> Rows2(im[i].c, im[i].g)])
\* ---- distortion and intrinsics
Coef(h) == TLCEval([i \in 1..4 |-> IF R(1, 3) = 1 THEN 0 ELSE R(-3, 3)])
Used(s, d) == LET t(a) == a[2] = 0 \/ d[a[2]] # 0 IN SelectSeq(s, t)
PX(s, d, e, x, y) == IF Used(s, d) = <<>> THEN 0 ELSE PolyX(Used(s, d), d, e, x, y)
P1(s, x, y) == PolyX(s, <<0, 0, 0, 0>>, 1, x, y)
DoDistort == \E p \in {V(2, 9)}, m \in {R(1, 5)}, d \in {Coef(hist)}, e \in {RandomElement({1, 10, 100})}, w \in {R(0, 4)} : \E x \in {Nx(p[1], m)}, y \in {Nx(p[2], m)} :
   Rec("distort", <<w, Vx(p, m), Vx(d, e)>>, <<T(PX(DistX, d, e, x, y)), T(PX(DistY, d, e, x, y))>>
       \o (IF w = 0 THEN <<>> ELSE IF w <= 2 THEN <<T(PX(DX(DistX), d, e, x, y)), T(PX(DY(DistX), d, e, x, y)), T(PX(DX(DistY), d, e, x, y)), T(PX(DY(DistY), d, e, x, y))>>
           ELSE [n \in 1..8 |-> T(P1(DK(Dist((n + 3) \div 4), ((n - 1) % 4) + 1), x, y))]))
DCim(p) == <<<<-p[1], -p[2], -1, 0, 0>>, <<0, 0, 0, -p[2], -1>>>>
DoCim == \E k \in {V(5, 9)}, p \in {V(2, 9)}, w \in {R(0, 1)} :
   Rec("cim", <<w, Vx(p, 1), Vx(k, 1)>>, <<Vx(MatVec(DCim(p), k), 1), Mx(DCim(p), 1)>>)
\* ---- several cameras with distortion; the derivative of the distorted image point by the camera coordinates c: rows of expressions
K2(kk) == <<<<kk[1], kk[2]>>, <<kk[4], kk[5]>>>>
DPix(r, k2, f, d, e, c) == LET x == Nx(c[1], c[3]) y == Nx(c[2], c[3])
                               b(a, s) == IF a = 0 THEN 0 ELSE Pr(<<f*a, s>>)
                           IN  <<Sm(<<b(k2[r][1], PX(DX(DistX), d, e, x, y)), b(k2[r][2], PX(DX(DistY), d, e, x, y))>>),
                                 Sm(<<b(k2[r][1], PX(DY(DistX), d, e, x, y)), b(k2[r][2], PX(DY(DistY), d, e, x, y))>>)>>
Pix(r, k2, o, f, d, e, c) == LET x == Nx(c[1], c[3]) y == Nx(c[2], c[3])
                                 b(a, s) == IF a = 0 THEN 0 ELSE Pr(<<f*a, s>>)
                             IN  Sm(<<f*o, b(k2[r][1], PX(DistX, d, e, x, y)), b(k2[r][2], PX(DistY, d, e, x, y))>>)
Lin2(a, g, j, den) == IF g[1][j] = 0 /\ g[2][j] = 0 THEN 0 ELSE Pr(<<Rcp(den), Sm(<<Pr(<<a[1], g[1][j]>>), Pr(<<a[2], g[2][j]>>)>>)>>)
DoCams == \E nc \in {R(1, 2)}, ps \in {Pts(R(1, 2))}, q \in {RandomElement(UQ5)}, t \in {V(3, 9)}, w \in {R(0, 1)}, e \in {RandomElement({1, 10})} :
   \E cq \in {TLCEval([i \in 1..nc |-> RandomElement(UQ3)])}, ct \in {TLCEval([i \in 1..nc |-> V(3, 6)])}, ds \in {TLCEval([i \in 1..nc |-> Coef(i)])},
      ks \in {TLCEval([i \in 1..nc |-> [j \in 1..4 |-> R(-5, 9)]])}, fs \in {TLCEval([i \in 1..nc |-> RandomElement({-1, 1})])}, vis \in {TLCEval([i \in 1..R(1, 2) |-> <<R(1, Len(ps)), R(1, nc)>>])} :
   \E im \in {TLCEval([i \in 1..Len(vis) |-> LET p == ps[vis[i][1]] n == vis[i][2] IN
        [c |-> VAdd(RotQ(cq[n], Moved(q, t, p)), VScale(QN(q)*QN(cq[n]), ct[n])),
         g |-> MatMul(RotM(cq[n]), Beside(Diag(<<QN(q), QN(q), QN(q)>>), MScale(K(q), DQ(q, p))))]])} :
   IF \E i \in 1..Len(vis) : LET n == vis[i][2] IN ~Far(im[i].c, QN(q)*QN(cq[n])) THEN Nothing
   ELSE Rec("cams", <<w, nc>> \o [i \in 1..nc |-> <<Qa(cq[i]), Vx(ct[i], 1), Mx(<<<<ks[i][1], ks[i][2], ks[i][3]>>, <<0, ks[i][4], i>>, <<0, 0, fs[i]>>>>, 1), Vx(ds[i], e)>>]
            \o <<Len(ps), Mx(ps, 1), Len(vis), Mx(Zb(vis), 1), Vx(t, 1), Qa(q)>>,
            [n \in 1..(2*Len(vis)) |-> LET i == (n + 1) \div 2 r == ((n - 1) % 2) + 1 j == vis[i][2] IN
               T(Pix(r, <<<<ks[j][1], ks[j][2]>>, <<0, ks[j][4]>>>>, IF r = 1 THEN ks[j][3] ELSE j, fs[j], ds[j], e, im[i].c))]
            \o [n \in 1..(2*Len(vis)) |-> LET i == (n + 1) \div 2 r == ((n - 1) % 2) + 1 j == vis[i][2] 
                    a == DPix(r, <<<<ks[j][1], ks[j][2]>>, <<0, ks[j][4]>>>>, fs[j], ds[j], e, im[i].c) g == DDehom(im[i].c, im[i].g)
                    dn == Nx(im[i].c[3] * im[i].c[3], 1) IN Ts([l \in 1..7 |-> Lin2(a, g, l, dn)])])
\* ---- bundle adjustment: points, bodies with poses (the first at the origin), images, cameras
\* pose: axis A / m, quarter turns k, translation t
QPose(h) == The({[A |-> ax[1], m |-> ax[2], k |-> R(-3, 3), t |-> V(3, 9)] : ax \in {RandomElement(Axes)}})
PoseArgs(p) == <<Vx(p.t, 1)>> \o Quarter(p.A, p.m, p.k)
APose(h) == The({[A |-> ax, m |-> 1, k |-> R(-3, 3), t |-> V(3, 9)] : ax \in {RandomElement({<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>})}})
\* derivative of the rotated vector by the rotation vector: column j of P + Q / th over m^4; th = k pi / 2
RotCols(p, v) == [P |-> QuarterDP(p.A, p.m, p.k, v), Q |-> QuarterDQ(p.A, p.m, p.k, v)]
Sgn(x) == IF x = 0 THEN 0 ELSE 1
\* row a of expressions times g (2 x 3, over den) times P + Q / th
LieEntry(a, g, den, rc, p, j, s) ==
   LET prod(r, col) == IF \A i \in 1..3 : g[r][i] * Sgn(col[i]) = 0 THEN 0 ELSE Sm([i \in 1..3 |-> IF g[r][i] * Sgn(col[i]) = 0 THEN 0 ELSE Pr(<<g[r][i], col[i]>>)])
       part(col) == Sm([r \in 1..2 |-> Pr(<<a[r], prod(r, col)>>)])
       cq == Col(rc.Q, j)
   IN  Pr(<<Rcp(den), Nx(1, s), Sm(<<part(Col(rc.P, j)), IF p.k = 0 \/ cq = <<0, 0, 0>> THEN 0 ELSE Pr(<<part(cq), 2, Rcp(Fn("pi", <<>>)), Nx(1, p.k)>>)>>)>>)
DoBundle == \E np \in {R(1, 2)}, nb \in {R(1, 2)}, ni \in {R(1, 2)}, nc \in {R(1, 2)}, est \in {R(0, 1)}, w \in {R(0, 1)}, e \in {RandomElement({1, 10})} :
   \E ps \in {Pts(np)}, bp \in {TLCEval([i \in 1..nb |-> IF i = 1 THEN [A |-> <<1, 0, 0>>, m |-> 1, k |-> 0, t |-> <<0, 0, 0>>] ELSE QPose(i)])}, ip \in {TLCEval([i \in 1..ni |-> APose(i)])},
      ks \in {TLCEval([i \in 1..nc |-> V(5, 6)])}, ds \in {TLCEval([i \in 1..nc |-> Coef(i)])}, bodies \in {TLCEval([i \in 1..2 |-> Pts(2)])},
      \* observations: <<camera, image, point>>, <<camera, image, body, pose, point>>
      fm \in {TLCEval([i \in 1..R(0, 1) |-> <<R(1, nc), R(1, ni), R(1, np)>>])}, bm \in {TLCEval([i \in 1..R(0, 1) |-> <<R(1, nc), R(1, ni), R(1, 2), R(1, nb), R(1, 2)>>])} :
   \E ob \in {TLCEval([i \in 1..(Len(fm) + Len(bm)) |-> IF i <= Len(fm) THEN [c |-> fm[i][1], i |-> fm[i][2], p |-> fm[i][3], b |-> 0, v |-> ps[fm[i][3]], s |-> 1]
                 ELSE LET o == bm[i - Len(fm)] b == bp[o[4]] IN [c |-> o[1], i |-> o[2], p |-> o[5], b |-> o[4], s |-> b.m*b.m,
                        v |-> VAdd(MatVec(QuarterR(b.A, b.m, b.k), bodies[o[3]][o[5]]), VScale(b.m*b.m, b.t)), x |-> bodies[o[3]][o[5]]]])} :
   \E cc \in {TLCEval([i \in 1..Len(ob) |-> VAdd(MatVec(QuarterR(ip[ob[i].i].A, 1, ip[ob[i].i].k), ob[i].v), VScale(ob[i].s, ip[ob[i].i].t))])} :
   IF \E i \in 1..Len(ob) : ~Far(cc[i], ob[i].s) THEN Nothing
   ELSE LET k2(n) == <<<<ks[n][1], ks[n][2]>>, <<0, ks[n][4]>>>>
            off(n, r) == IF r = 1 THEN ks[n][3] ELSE ks[n][5]
            row(i, r) ==
               LET o == ob[i] c == cc[i] im == ip[o.i] x == Nx(c[1], c[3]) y == Nx(c[2], c[3])
                   a == DPix(r, k2(o.c), -1, ds[o.c], e, c)
                   gd == MScale(o.s, DDehom(c, Ident(3)))                       \* by camera coordinates, over c3^2
                   gw == MatMul(gd, QuarterR(im.A, 1, im.k))                  \* by world coordinates
                   dn == c[3]*c[3]
                   pt(n) == IF o.b = 0 /\ o.p = n THEN [j \in 1..3 |-> Lin2(a, gw, j, dn)] ELSE <<0, 0, 0>>
                   body(n) == IF o.b # n THEN <<0, 0, 0, 0, 0, 0>>
                              ELSE LET b == bp[n] rc == TLCEval(RotCols(b, o.x)) IN [j \in 1..6 |-> IF j <= 3 THEN Lin2(a, gw, j, dn) ELSE LieEntry(a, gw, dn, rc, b, j - 3, b.m*b.m*b.m*b.m)]
                   img(n) == IF o.i # n THEN <<0, 0, 0, 0, 0, 0>>
                             ELSE LET rc == TLCEval(RotCols(im, o.v)) IN [j \in 1..6 |-> IF j <= 3 THEN Lin2(a, gd, j, dn) ELSE LieEntry(a, gd, dn, rc, im, j - 3, o.s)]
                   dx == PX(DistX, ds[o.c], e, x, y) dy == PX(DistY, ds[o.c], e, x, y)
                   mi(z) == Pr(<<-1, z>>)
                   intr(n) == IF o.c # n THEN Zero(9)
                              ELSE (IF r = 1 THEN <<mi(dx), mi(dy), -1, 0, 0>> ELSE <<0, 0, 0, mi(dy), -1>>)
                                   \o [j \in 1..4 |-> Sm(<<Pr(<<-k2(n)[r][1], P1(DK(DistX, j), x, y)>>), Pr(<<-k2(n)[r][2], P1(DK(DistY, j), x, y)>>)>>)]
               IN  FlatTo([n \in 1..np |-> pt(n)], np) \o FlatTo([n \in 1..(nb - 1) |-> body(n + 1)], nb - 1) \o FlatTo([n \in 1..ni |-> img(n)], ni)
                   \o (IF est = 1 THEN FlatTo([n \in 1..nc |-> intr(n)], nc) ELSE <<>>)
        IN Rec("bundle", <<w, est, np, nb, ni, nc>> \o [i \in 1..nc |-> <<Vx(ks[i], 1), Vx(ds[i], e)>>] \o [i \in 1..2 |-> Mx(bodies[i], 1)]
                \o <<Len(fm)>> \o [i \in 1..Len(fm) |-> VSub(fm[i], <<1, 1, 1>>)] \o <<Len(bm)>> \o [i \in 1..Len(bm) |-> VSub(bm[i], <<1, 1, 1, 1, 1>>)]
                \o [i \in 1..np |-> Vx(ps[i], 1)] \o [i \in 1..(nb - 1) |-> PoseArgs(bp[i + 1])] \o [i \in 1..ni |-> PoseArgs(ip[i])],
                <<2*Len(ob), 3*np + 6*(nb - 1) + 6*ni + (IF est = 1 THEN 9*nc ELSE 0)>>
                \o [n \in 1..(2*Len(ob)) |-> LET i == (n + 1) \div 2 r == ((n - 1) % 2) + 1 IN T(Pix(r, k2(ob[i].c), off(ob[i].c, r), -1, ds[ob[i].c], e, cc[i]))]
                \o [n \in 1..(2*Len(ob)) |-> Ts(row((n + 1) \div 2, ((n - 1) % 2) + 1))])
\* ---- rotation-only hand-eye calibration
DoHec == \E a \in {RandomElement(UQ7)}, b \in {RandomElement(UQ7)}, x \in {RandomElement(UQ7)}, w \in {R(0, 1)} :
   IF w = 0 THEN Rec("hec", <<Qa(a), Qa(b), Qa(x)>>, <<T(Vx(HecV(VScale(K(b), a), VScale(K(a), b), x), K(a)*K(b)*K(x))), T(Mx(HecX(VScale(K(b), a), VScale(K(a), b)), K(a)*K(b)))>>)
   ELSE Rec("heccombine", <<Qa(a), Qa(b), Qa(x)>>, <<T(Mx(HecA(x), K(x))), T(Mx(HecB(x), K(x)))>>)
\* ---- building blocks
DoLinear == \E n \in {R(1, 3)} : \E r \in {<<2, 3, 4>>[n]}, c \in {<<3, 2, 4>>[n]} : \E m \in {M(r, c, 9)}, v \in {V(c, 9)}, w \in {R(0, 3)} :
   \* 2, 3: the derivative by differences of width 1/1000 and 1/8
   Rec("linear", <<w, n, Mx(m, 1), Vx(v, 1)>>, <<Vx(MatVec(m, v), 1), IF w <= 1 THEN Mx(m, 1) ELSE Tol(6, Mx(m, 1))>>)
DoNormalize == \E n \in {R(1, 5)}, w \in {R(0, 1)}, d \in {R(1, 4)} : \E v \in {V(n, 9)} :
   IF IsZero(v) THEN Nothing
   ELSE Rec("normalize", <<w, n, Vx(v, d)>>, [i \in 1..n |-> T(Pr(<<v[i], Rcp([sq |-> Norm2(v), d |-> 1])>>))]
            \o Ts([i \in 1..(n*n) |-> Pr(<<d, Flat(DNormalize(v))[i], Nx(1, Norm2(v)), Rcp([sq |-> Norm2(v), d |-> 1])>>)]))
\* rotation velocity over the time dt = n / 4: quarter turns about A / m, or none
Vel(A, m, k, n) == [i \in 1..3 |-> Pr(<<Fn("pi", <<>>), Nx(k * A[i] * 4, 2 * m * n)>>)]
Half(k) == Pr(<<Fn("pi", <<>>), Nx(k, 4)>>)
Anys(n) == <<[any |-> n]>>
DoIntegrate == \E ax \in {RandomElement(Axes)}, k \in {RandomElement({-3, -2, -1, 0, 0, 0, 1, 2, 3})}, n \in {R(1, 9)}, w \in {R(0, 1)} :
   Rec("integrate", <<w, Nx(n, 4)>> \o Vel(ax[1], ax[2], k, n),
       [i \in 1..4 |-> T(IF i = 4 THEN C(Half(k)) ELSE Pr(<<S(Half(k)), Nx(ax[1][i], ax[2])>>))]
       \o (IF k = 0 THEN <<Mx(<<<<n, 0, 0>>, <<0, n, 0>>, <<0, 0, n>>, <<0, 0, 0>>>>, 8)>> ELSE Anys(12)))
\* ---- motion models: dt = n / 4
Tm(n, i, o) == IF i > o THEN 0 ELSE Pow(n, i) * Pow(4, 3 - i) * (6 \div Fact(i))           \* dt^i / i!, over 384
LinV(x, sz, n, o) == TLCEval([j \in 1..sz |-> Sum([i \in 1..(o + 1) |-> Tm(n, i - 1, o) * x[(i - 1)*sz + j]])])        \* over 384
LinJ(sz, n, o) == TLCEval([j \in 1..sz |-> [c \in 1..(sz*(o + 1)) |-> IF (c - 1) % sz = j - 1 THEN Tm(n, (c - 1) \div sz, o) ELSE 0]])
DoLinearTime == \E sz \in {R(1, 4)}, n \in {R(-6, 9)}, o \in {R(0, 3)} : \E x \in {V(sz*(o + 1), 9)} :
   Rec("lineartime", <<Nx(n, 4), sz, o, Vx(x, 1)>>, <<Vx(LinV(x, sz, n, o), 384), Mx(LinJ(sz, n, o), 384)>>)
\* rows of width w with the block b from column c on
Wide(b, w, c) == TLCEval([r \in 1..Len(b) |-> [j \in 1..w |-> IF j < c \/ j >= c + Len(b[r]) THEN 0 ELSE b[r][j - c + 1]]])
\* position with o derivatives: values and derivative, over 384
PosV(x, n, o) == FlatTo([i \in 1..(o + 1) |-> LinV(SubSeq(x, 3*(i - 1) + 1, 3*(o + 1)), 3, n, o + 1 - i)], o + 1)
PosJ(n, o, w) == FlatTo([i \in 1..(o + 1) |-> Wide(LinJ(3, n, o + 1 - i), w, 3*(i - 1) + 1)], o + 1)
\* rotation with velocity (ro = 1) without (ro = 0): the quaternion after it
TurnV(q, A, m, k) == LET h == QMul(q, <<A[1], A[2], A[3], 0>>) IN [i \in 1..4 |-> T(Sm(<<Pr(<<S(Half(k)), Nx(h[i], m * K(q))>>), Pr(<<C(Half(k)), Nx(q[i], K(q))>>)>>))]
TurnJ(q, n, w, s, ro) == TLCEval([r \in 1..4 |-> [c \in 1..w |-> IF c >= s /\ c < s + 4 THEN (IF c - s + 1 = r THEN 8*K(q) ELSE 0)
                                     ELSE IF c >= s + 4 THEN n * QMul(q, E4[c - s - 3])[r] ELSE 0]])               \* over 8 K(q)
DoQuatTime == \E q \in {RandomElement(UQ7)}, ax \in {RandomElement(Axes)}, k \in {RandomElement({-3, -2, -1, 0, 0, 0, 1, 2, 3})}, n \in {R(1, 9)}, o \in {R(0, 1)} :
   Rec("quattime", <<Nx(n, 4), o, Qa(q)>> \o (IF o = 1 THEN Vel(ax[1], ax[2], k, n) ELSE <<>>),
       (IF o = 1 THEN TurnV(q, ax[1], ax[2], k) ELSE <<T(Vx(q, K(q)))>>)
       \o (IF o = 0 THEN <<Mx(Ident(4), 1)>> ELSE IF k = 0 THEN <<T(Mx(TurnJ(q, n, 7, 1, 1), 8*K(q)))>> ELSE Anys(28)))
DoPoseTime == \E q \in {RandomElement(UQ7)}, ax \in {RandomElement(Axes)}, k \in {RandomElement({-3, -2, -1, 0, 0, 0, 1, 2, 3})}, n \in {R(1, 9)}, po \in {R(-1, 3)}, ro \in {R(-1, 1)} :
   \E x \in {V(3*(po + 1), 9)}, rs \in {3*(po + 1)}, w \in {3*(po + 1) + (IF ro < 0 THEN 0 ELSE 4 + 3*ro)} :
   IF w = 0 THEN Nothing
   ELSE Rec("posetime", <<Nx(n, 4), po, ro, w>> \o (IF po < 0 THEN <<>> ELSE <<Vx(x, 1)>>) \o (IF ro < 0 THEN <<>> ELSE <<Qa(q)>>) \o (IF ro = 1 THEN Vel(ax[1], ax[2], k, n) ELSE <<>>),
       (IF po < 0 THEN <<>> ELSE <<Vx(PosV(x, n, po), 384)>>)
       \o (IF ro < 0 THEN <<>> ELSE IF ro = 0 THEN <<T(Vx(q, K(q)))>> ELSE TurnV(q, ax[1], ax[2], k) \o Ts(Vel(ax[1], ax[2], k, n)))
       \o (IF po < 0 THEN <<>> ELSE <<Mx(PosJ(n, po, w), 384)>>)
       \o (IF ro < 0 THEN <<>> ELSE IF ro = 0 THEN <<Mx(Wide(Ident(4), w, rs + 1), 1)>>
           ELSE (IF k = 0 THEN <<T(Mx(TurnJ(q, n, w, rs + 1, 1), 8*K(q)))>> ELSE Anys(4*w)) \o <<Mx(Wide(Ident(3), w, rs + 5), 1)>>))
\* a moving camera that sees a static object
DoInside == \E q \in {RandomElement(UQ3)}, ax \in {RandomElement(Axes)}, k \in {RandomElement({-3, -2, -1, 0, 0, 0, 1, 2, 3})}, n \in {R(1, 9)}, po \in {R(0, 1)} :
   \E x \in {V(3*(po + 1), 9)}, rs \in {3*(po + 1)}, w \in {3*(po + 1) + 7}, A \in {ax[1]}, m \in {ax[2]} :
   \E rot \in {MatMul(MatMul(RotM(q), QuarterR(A, m, k)), RotM(QConj(q)))}, den \in {QN(q)*QN(q)*m*m} :
   \E p \in {MatVec(rot, SubSeq(x, 1, 3))} :
   Rec("inside", <<Nx(n, 4), po, w, Vx(x, 1), Qa(q)>> \o Vel(A, m, k, n),
       <<T(Vx(IF po = 0 THEN p ELSE VAdd(VScale(4, p), VScale(n*den, SubSeq(x, 4, 6))), IF po = 0 THEN den ELSE 4*den))>>
       \o (IF po = 0 THEN <<>> ELSE <<T(Vx(MatVec(rot, SubSeq(x, 4, 6)), den))>>) \o TurnV(q, A, m, k) \o Ts(Vel(A, m, k, n))
       \o (IF k # 0 THEN Anys(w*w)
           ELSE LET turn(v) == LET c(i) == VScale(n, Cross(MatVec(RotM(q), E3[i]), v)) IN Cols3(c)               \* over 4 QN(q)
                    nn == 4 * QN(q)
                    one == Diag(<<nn, nn, nn>>)
                IN  <<T(Mx(TLCEval([r \in 1..3 |-> (one[r] \o (IF po = 1 THEN VScale(n, Diag(<<QN(q), QN(q), QN(q)>>)[r]) ELSE <<>>)) \o Zero(4) \o turn(SubSeq(x, 1, 3))[r]]), nn))>>
                    \o (IF po = 0 THEN <<>> ELSE <<T(Mx(TLCEval([r \in 1..3 |-> Zero(3) \o one[r] \o Zero(4) \o turn(SubSeq(x, 4, 6))[r]]), nn))>>)
                    \o <<T(Mx(TurnJ(q, n, w, rs + 1, 1), 8*K(q))), Mx(Wide(Ident(3), w, rs + 5), 1)>>))
DoInvert == \E q \in {RandomElement(UQ7)}, v \in {V(3, 9)} :
   Rec("invertvel", <<Qa(q), Vx(v, 1)>>, <<T(Vx(VNeg(RotQ(q, v)), QN(q))), T(Mx(Beside(MScale(K(q), DQ(q, VNeg(v))), MScale(-1, RotM(q))), QN(q)))>>)
\* ---- composed functions of a parameter vector x of length n; block at column c (from 1); w: how it is called
\* value and derivative of everything else is zero
DoNNorm == \E x \in {V(7, 9)}, v \in {V(3, 9)}, c \in {R(1, 5)}, s \in {R(0, 2)}, w \in {R(0, 2)} :
   \* 0: x - v, 1: v - x, 2: x + v
   \E d \in {IF s = 0 THEN VSub(SubSeq(x, c, c + 2), v) ELSE IF s = 1 THEN VSub(v, SubSeq(x, c, c + 2)) ELSE VAdd(v, SubSeq(x, c, c + 2))} :
   IF IsZero(d) THEN Nothing
   ELSE Rec("nnorm", <<w, 1, Vx(x, 1), s, c, Vx(v, 1)>>, <<[sq |-> Norm2(d), d |-> 1]>>
            \o [j \in 1..7 |-> IF j < c \/ j > c + 2 THEN 0 ELSE Pr(<<IF s = 1 THEN -1 ELSE 1, d[j - c + 1], Rcp([sq |-> Norm2(d), d |-> 1])>>)])
DoNAdd == \E x \in {V(8, 9)}, a \in {M(2, 3, 5)}, b \in {M(2, 2, 5)}, c \in {R(0, 1)}, w \in {R(0, 2)} : \E i \in {IF c = 0 THEN R(1, 2) ELSE R(5, 6)}, j \in {IF c = 0 THEN R(5, 7) ELSE R(1, 3)} :
   Rec("nadd", <<w, 2, Vx(x, 1), i, j, Mx(a, 1), Mx(b, 1)>>, <<Vx(VAdd(MatVec(a, SubSeq(x, i, i + 2)), MatVec(b, SubSeq(x, j, j + 1))), 1), Mx(MAdd(Wide(a, 8, i), Wide(b, 8, j)), 1)>>)
DoNCim == \E k \in {V(5, 6)}, p \in {V(3, 6)}, o \in {R(0, 1)}, w \in {R(0, 2)} :
   IF p[3] = 0 THEN Nothing
   ELSE \E x \in {IF o = 0 THEN k \o <<5>> \o p ELSE p \o k \o <<7>>}, z \in {p[3]} : \E i \in {IF o = 0 THEN 1 ELSE 4}, j \in {IF o = 0 THEN 7 ELSE 1} :
        Rec("ncim", <<w, 2, Vx(x, 1), i, j>>, <<T(Vx(<<-(k[1]*p[1] + k[2]*p[2] + k[3]*z), -(k[4]*p[2] + k[5]*z)>>, z)),
            T(Mx(MAdd(Wide(MScale(z, <<<<-p[1], -p[2], -z, 0, 0>>, <<0, 0, 0, -p[2], -z>>>>), 9, i),
                      Wide(MatMul(<<<<-k[1], -k[2]>>, <<0, -k[4]>>>>, DDehom(p, Ident(3))), 9, j)), z*z))>>)
DoNDehom == \E x \in {V(6, 9)}, i \in {R(1, 3)}, w \in {R(0, 2)} :
   IF x[i + 3] = 0 THEN Nothing
   ELSE Rec("ndehom", <<w, 3, Vx(x, 1), i>>, <<T(Vx(SubSeq(x, i, i + 2), x[i + 3])), T(Mx(Wide(DDehom(SubSeq(x, i, i + 3), Ident(4)), 6, i), x[i + 3]*x[i + 3]))>>)
\* projection of a point moved by a pose: s = 0 the point is a constant, 1 a parameter
DoNProj == \E cam \in {Cut(Cam(hist))}, b \in {QPose(hist)}, v \in {V(3, 4)}, s \in {R(0, 2)}, o \in {R(0, 1)}, w \in {R(0, 2)} :
   \E mm \in {b.m*b.m}, rot \in {QuarterR(b.A, b.m, b.k)} : \E c \in {MatVec(cam, VAdd(MatVec(rot, v), VScale(mm, b.t)))} :
   IF ~Far(c, mm) THEN Nothing
   ELSE LET g == MScale(mm, DDehom(c, cam)) rc == RotCols(b, v) z == Nx(c[3]*c[3], 1)
            tr == [r \in 1..2 |-> [j \in 1..3 |-> Nx(g[r][j], c[3]*c[3])]]
            ro == [r \in 1..2 |-> [j \in 1..3 |-> LieEntry(IF r = 1 THEN <<Nx(1, 1), Nx(0, 1)>> ELSE <<Nx(0, 1), Nx(1, 1)>>, g, z, rc, b, j, mm*mm)]]
            pt == [r \in 1..2 |-> [j \in 1..3 |-> Nx(MatMul(g, rot)[r][j], c[3]*c[3]*mm)]]
            none == <<0, 0, 0>>
            row(r) == (IF o = 0 THEN tr[r] \o ro[r] ELSE ro[r] \o <<0>> \o tr[r]) \o (IF s = 2 THEN pt[r] ELSE none) \o (IF o = 0 THEN <<0>> ELSE <<>>)
        IN Rec("nproj", <<w, 2>> \o (IF o = 0 THEN PoseArgs(b) ELSE Quarter(b.A, b.m, b.k) \o <<7, Vx(b.t, 1)>>) \o <<Vx(v, 1)>> \o (IF o = 0 THEN <<5>> ELSE <<>>)
                 \o <<s, IF o = 0 THEN 4 ELSE 1, IF o = 0 THEN 1 ELSE 5, IF o = 0 THEN 7 ELSE 8, Mx(cam, 1), Vx(v, 1)>>,
               <<T(Vx(SubSeq(c, 1, 2), c[3]))>> \o Ts(row(1)) \o Ts(row(2)))
GenInit == GenStart
GenNext == IF ~More THEN Finish
           ELSE \E w \in {R(1, 29)} :
             CASE w = 1 -> DoQuatRot [] w = 2 -> DoQuatErr [] w = 3 -> DoLie [] w = 4 -> DoDehom [] w = 5 -> DoNormalizePose [] w = 6 -> DoSingle
               [] w = 7 -> DoMulti [] w = 8 -> DoMultiError [] w = 9 -> DoArt [] w = 10 -> DoDistort [] w = 11 -> DoCim [] w = 12 -> DoCams
               [] w <= 14 -> DoBundle [] w = 15 -> DoHec [] w = 16 -> DoLinear [] w = 17 -> DoNormalize [] w = 18 -> DoIntegrate [] w = 19 -> DoLinearTime
               [] w = 20 -> DoQuatTime [] w = 21 -> DoPoseTime [] w = 22 -> DoInside [] w = 23 -> DoInvert [] w = 24 -> DoNNorm [] w = 25 -> DoNAdd
               [] w = 26 -> DoNCim [] w = 27 -> DoNDehom [] OTHER -> DoNProj
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted>>
=============================================================================
