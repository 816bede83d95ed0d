---------------------------- MODULE PoseEstGen ----------------------------
EXTENDS PoseEst, Gen
R(lo, hi) == RandomElement(lo..hi)
Gq(h) == IF R(1, 3) = 1 THEN RandomElement(Octa) ELSE <<R(-2, 2), R(-2, 2), R(-1, 1), R(1, 2)>>
Gk(h) == IF R(1, 2) = 1 THEN <<R(1, 6), R(-1, 1), R(-4, 4), RandomElement({-5, -2, -1, 1, 3, 4}), R(-4, 4)>>
         ELSE <<R(200, 600), RandomElement({0, 0, 3, -2}), -R(0, 400), RandomElement({-1, 1}) * R(200, 600), -R(0, 300)>>
Gks(h) == <<R(1, 3), R(-1, 1), R(-2, 2), RandomElement({-3, -1, 1, 2}), R(-2, 2)>>
Gt(h) == <<R(-5, 5), R(-5, 5), R(-30, -22)>>
Gx(h) == <<R(-7, 7), R(-7, 7), R(-7, 7)>>
Gxs(n, h) == TLCEval([i \in 1..n |-> Gx(h)])
Im(m, p) == The({Vx(<<i[1], i[2]>>, i[3]) : i \in {MatVec(m, Hom(p))}})
Ixs(c, ps) == The({TLCEval([i \in 1..Len(ps) |-> Im(m, ps[i])]) : m \in {PN(c)}})
Xs3(ps) == TLCEval([i \in 1..Len(ps) |-> Vx(ps[i], 1)])
Box(h) == LET o == <<R(-3, 3), R(-3, 3), R(-3, 3)>> e == <<R(2, 4), R(2, 4), R(2, 4)>> IN
   TLCEval([i \in 1..8 |-> VAdd(o, <<IF i % 2 = 0 THEN e[1] ELSE -e[1], IF (i \div 2) % 2 = 0 THEN e[2] ELSE -e[2], IF (i \div 4) % 2 = 0 THEN e[3] ELSE -e[3]>>)])
\* four points of a plane z = o, any order, no three on a line
Tri(u, v, w) == Det2(<<VSub(v, u), VSub(w, u)>>)
General(ps) == \A i, j, k \in 1..Len(ps) : i < j /\ j < k => Abs(Tri(ps[i], ps[j], ps[k])) >= 12
Gp2(n, h) == TLCEval([i \in 1..n |-> <<R(-6, 6), R(-6, 6)>>])
Quads == << << <<-4, 5>>, <<-5, -4>>, <<4, -5>>, <<5, 4>> >>, << <<3, 3>>, <<-3, -3>>, <<3, -3>>, <<-3, 3>> >>, << <<6, 0>>, <<0, 5>>, <<-5, -1>>, <<1, -6>> >>, << <<1, 1>>, <<6, 2>>, <<2, 6>>, <<-4, -5>> >> >>
Gquad(h) == The({IF General(g) THEN g ELSE RandomElement({Quads[i] : i \in 1..4}) : g \in {Gp2(4, h)}})
Lift(ps, o) == TLCEval([i \in 1..Len(ps) |-> ps[i] \o <<o>>])
\* the same in a tilted plane through o: o + a u + b v; the first three points make an angle of more than 37 degrees at the first
Frames == {<< <<1, 0, 1>>, <<0, 1, 0>> >>, << <<0, 1, 0>>, <<0, 0, 1>> >>, << <<0, 0, -1>>, <<1, 0, 0>> >>, << <<1, 1, 0>>, <<0, 0, 1>> >>, << <<1, 0, 0>>, <<0, 1, -1>> >>, << <<1, 0, -1>>, <<0, 1, 1>> >>}
Tilted(ps, f, o) == TLCEval([i \in 1..Len(ps) |-> VAdd(o, VAdd(VScale(ps[i][1], f[1]), VScale(ps[i][2], f[2])))])
Wide(ps) == LET a == VSub(ps[2], ps[1]) b == VSub(ps[3], ps[1]) d == Dot(a, b) IN (d <= 0 \/ 100 * d * d <= 49 * Norm2(a) * Norm2(b)) /\ d * d * 100 <= 81 * Norm2(a) * Norm2(b)
SameZ(ps) == \A i \in 1..4 : ps[i][3] = ps[1][3]
\* the plane of the first points is seen at an angle: the centre of the camera is at least 6 away from it
Seen(q, t, ps) == The({The({Abs(Dot(n, VAdd(c, VScale(QN(q), ps[1])))) >= 6 * QN(q) * (1 + MaxAbs(n)) : n \in {Prim(Cross(VSub(ps[2], ps[1]), VSub(ps[3], ps[1])))}}) : c \in {MatVec(Trans(RotM(q)), t)}})
Plane == 0
Space == 1
DoFew == Record("posefew", <<R(0, 3)>>, Exc)
DoSpace(c, opt) == \E ps \in {Box(hist) \o Gxs(R(0, 4), hist)} :
   Record("pose", <<opt, Space, Len(ps), Mx(KM(c.k), 1)>> \o Xs3(ps) \o Ixs(c, ps), <<Tol(6, Qx(c.q)), Tol(6, Vx(c.t, 1)), Tol(5, 0), Tol(5, 0)>>)
DoPose(kind) == \E c \in {Cam(Gk(hist), Prim(Gq(hist)), Gt(hist))}, opt \in {R(0, 1)} :
   CASE kind = "plane" -> \E ps \in {Lift(Gquad(hist), R(-3, 3)) \o (IF R(1, 2) = 1 THEN <<>> ELSE Gxs(R(1, 4), hist))} :
             IF Seen(c.q, c.t, ps) THEN Record("pose", <<opt, Plane, Len(ps), Mx(KM(c.k), 1)>> \o Xs3(ps) \o Ixs(c, ps), <<Tol(6, Qx(c.q)), Tol(6, Vx(c.t, 1)), Tol(5, 0), Tol(5, 0)>>)
             ELSE DoSpace(c, opt)
     [] kind = "tilted" -> \E f \in {RandomElement(Frames)}, g \in {Gquad(hist)}, o \in {<<R(-2, 2), R(-2, 2), R(-2, 2)>>} :
          \E four \in {Tilted(g, f, o)} : \E ps \in {four \o (IF R(1, 2) = 1 THEN <<>> ELSE Gxs(R(1, 4), hist))} :
             IF Wide(four) /\ ~SameZ(four) /\ Seen(c.q, c.t, four) THEN Record("pose", <<opt, Plane, Len(ps), Mx(KM(c.k), 1)>> \o Xs3(ps) \o Ixs(c, ps), <<Tol(6, Qx(c.q)), Tol(6, Vx(c.t, 1)), Tol(5, 0), Tol(5, 0)>>)
             ELSE DoSpace(c, opt)
     [] OTHER -> DoSpace(c, opt)
\* the first three points on a line, in one direction from the first, not in a plane z = const
DoCol == \E d \in {<<R(-3, 3), R(-3, 3), R(1, 3)>>}, o \in {Gx(hist)}, a \in {R(1, 3)}, b \in {R(1, 3)}, s \in {RandomElement({-1, 1})} :
   Record("posecol", Xs3(<<o, VAdd(o, VScale(s * a, d)), VAdd(o, VScale(s * (a + b), d)), VAdd(o, <<4, -5, 1>>)>>), Exc)
DoHpose == \E f \in {RandomElement({"", "f"})}, k \in {Gks(hist)}, q \in {Prim(Gq(hist))}, t \in {<<R(-9, 9), R(-9, 9), R(-9, -1)>>}, s \in {RandomElement({<<1, 1>>, <<-1, 1>>, <<5, 2>>, <<-1, 3>>, <<7, 1>>})} :
   \E m \in {PN(Cam(k, q, t))} :
   Record("hpose" \o f, <<Mx(KM(k), 1), Mx([i \in 1..3 |-> VScale(s[1], <<m[i][1], m[i][2], m[i][4]>>)], s[2] * QN(q))>>, <<Tol(IF f = "f" THEN 3 ELSE 7, Qx(q)), Tol(IF f = "f" THEN 3 ELSE 7, Vx(t, 1))>>)
\* from a start nearby to the true pose, or without getting worse for measured images that fit no pose
Nudge(h) == <<R(-9, 9), R(-9, 9), R(-9, 9)>>
DoOpt == \E f \in {RandomElement({"", "", "f"})}, c \in {Cam(Gks(hist), Prim(Gq(hist)), Gt(hist))}, ps \in {Box(hist) \o Gxs(R(0, 3), hist)}, n \in {RandomElement({1, 2, 6, 40})}, e \in {Nudge(hist)}, g \in {Nudge(hist)}, noise \in {RandomElement({0, 0, 1})} :
   \* translation off by e / 10, rotation by about g / 200 rad, image noise (k^2 mod 7 - 3) / 100
   Record("opt" \o f, <<n, noise, Len(ps), Mx(KM(c.k), 1), Qx(c.q), Vx(c.t, 1), Vx(e, 10), Vx(g, 400)>> \o Xs3(ps) \o Ixs(c, ps),
     <<1, 1>> \o (IF n = 40 /\ noise = 0 THEN <<Tol(IF f = "f" THEN 1 ELSE 5, Qx(c.q)), Tol(IF f = "f" THEN 1 ELSE 5, Vx(c.t, 1))>> ELSE <<[any |-> 7]>>))
\* iterative estimation from normalised images of a body in front of a camera that looks along +z
DoLu == \E f \in {RandomElement({"", "", "f"})}, q \in {Prim(Gq(hist))}, t \in {<<R(-5, 5), R(-5, 5), R(22, 30)>>}, ps \in {Box(hist) \o Gxs(R(0, 4), hist)} :
   \E c \in {Cam(<<-1, 0, 0, -1, 0>>, q, t)} :
   Record("lu" \o f, <<Len(ps)>> \o Xs3(ps) \o The({[i \in 1..Len(ps) |-> The({Vx(<<-h[1], -h[2]>>, -h[3]) : h \in {MatVec(m, Hom(ps[i]))}})] : m \in {PN(c)}}), <<1, Tol(IF f = "f" THEN 1 ELSE 3, Qx(q)), Tol(IF f = "f" THEN 0 ELSE 2, Vx(t, 1))>>)
\* covariances
Gy(h) == <<R(-3, 3), R(-3, 3), -R(1, 2)>>
Body(q, t, n, h) == The({[i \in 1..n |-> Back(q, t, y[i])] : y \in {TLCEval([i \in 1..n |-> VAdd(Gy(h), IF i <= 4 THEN <<IF i <= 2 THEN 4 ELSE -4, IF i % 2 = 0 THEN 4 ELSE -4, 0>> ELSE <<0, 0, 0>>)])}})
Ts(h) == <<R(-2, 2), R(-2, 2), R(-2, 2)>>
DoCov1 == \E f \in {RandomElement({"", "", "f"})}, k \in {Gks(hist)}, q \in {RandomElement(Octa)}, t \in {Ts(hist)}, n \in {R(5, 6)}, s \in {R(1, 9)} : \E ps \in {TLCEval(Body(q, t, n, hist))} : \E m \in {TLCEval(Info16(<<K34(k)>>, q, t, [i \in 1..n |-> <<ps[i], 1>>]))} :
   Record("cov1" \o f, <<n, s, Mx(KM(k), 1), Qx(q), Vx(t, 1)>> \o Xs3(ps), <<Tol(IF f = "f" THEN 2 ELSE 5, Mx(m, 16))>>)
\* cameras with the same depth for every point, shifted and turned about the optical axis; not every point is seen by every camera
Zq == {<<0, 0, 0, 1>>, <<0, 0, 1, 1>>, <<0, 0, 1, 0>>, <<0, 0, -1, 1>>}
DoCov2 == \E f \in {RandomElement({"", "", "f"})}, q \in {RandomElement(Octa)}, t \in {Ts(hist)}, n \in {R(4, 5)}, nc \in {R(1, 3)}, w \in {RandomElement(Octa)}, d \in {Ts(hist)}, s \in {R(1, 9)} :
   \E cs \in {TLCEval([i \in 1..nc |-> LET z == RandomElement(Zq) IN CamM(Gks(hist), QM(z, w), VAdd(MatVec(RI(z), d), <<R(-2, 2), R(-2, 2), 0>>))])} :
   \E ps \in {TLCEval([i \in 1..n |-> Back(q, t, Back(w, d, VAdd(Gy(hist), IF i <= 4 THEN <<IF i <= 2 THEN 4 ELSE -4, IF i % 2 = 0 THEN 4 ELSE -4, 0>> ELSE <<0, 0, 0>>)))])} :
   \E obs \in {TLCEval([i \in 1..n |-> <<i, 1>>] \o (IF nc < 2 THEN <<>> ELSE [i \in 1..(n - 1) |-> <<n + 1 - i, 2>>]) \o (IF nc < 3 THEN <<>> ELSE << <<2, 3>> >>))} :
   \E m \in {TLCEval(Info16(cs, q, t, [i \in 1..Len(obs) |-> <<ps[obs[i][1]], obs[i][2]>>]))} :
   Record("cov2" \o f, <<n, nc, Len(obs), s, Qx(q), Vx(t, 1)>> \o Xs3(ps) \o [i \in 1..nc |-> Mx(cs[i], 1)] \o The({[i \in 1..(2 * Len(obs)) |-> o2[(i + 1) \div 2][2 - (i % 2)] - 1] : o2 \in {obs}}), <<Tol(IF f = "f" THEN 2 ELSE 5, Mx(m, 16))>>)
\* measured images that fit no pose: residual, covariance, refinement
DoNoisy == \E c \in {Cam(Gk(hist), Prim(Gq(hist)), Gt(hist))}, sp \in {R(0, 1)} : \E ps \in {IF sp = 1 THEN Box(hist) ELSE Lift(Gquad(hist), R(-3, 3)) \o Gxs(R(1, 4), hist)} :
   IF sp = 0 /\ ~Seen(c.q, c.t, ps) THEN DoSpace(c, R(0, 1)) ELSE Record("noisy", <<IF sp = 1 THEN Space ELSE Plane, Len(ps), Mx(KM(c.k), 1)>> \o Xs3(ps) \o Ixs(c, ps), <<1, 1, 1, 1, 1>>)
\* several cameras around the world; bodies, one after the other, each with its own pose in the world
Far(h) == <<R(-4, 4), R(-4, 4), R(-30, -26)>>
Junk == Vx(<<17, -5>>, 1)
\* seen[b][c][i]: point i of body b in camera c
Gseen(nb, nc, ns, h) == TLCEval([b \in 1..nb |-> [c \in 1..nc |-> [i \in 1..ns[b] |-> R(1, 8) > 1]]])
Count(s) == Cardinality({i \in 1..Len(s) : s[i]})
Enough(sb, nc, mn, init) == (\A c \in 1..nc : Count(sb[c]) >= mn) /\ (init = 1 \/ \E c \in 1..nc : Count(sb[c]) >= 4)
DoMulti == \E nb \in {R(1, 3)}, nc \in {R(1, 3)}, mn \in {RandomElement({0, 0, 1, 2, 4})}, init \in {R(0, 1)}, e \in {Nudge(hist)}, g \in {Nudge(hist)} :
   \E ks \in {TLCEval([c \in 1..nc |-> Gks(hist)])}, w \in {RandomElement(Octa)}, al \in {R(1, 3)}, ts \in {TLCEval([c \in 1..nc |-> Far(hist)])},
      bq0 \in {TLCEval([b \in 1..nb |-> Prim(IF R(1, 4) = 1 THEN Gq(hist) ELSE <<R(-1, 1), R(-1, 1), R(-2, 2), 2>>)])}, bt \in {TLCEval([b \in 1..nb |-> Ts(hist)])},
      bp \in {TLCEval([b \in 1..nb |-> The({LET z == R(-2, 2) IN Lift(u, z) : u \in {Gquad(hist) \o Gp2(R(0, 2), hist)}})])} :
   \* the cameras mostly look in about the same direction, the bodies mostly face them
   \E qs \in {TLCEval([c \in 1..nc |-> IF al = 1 THEN RandomElement(Octa) ELSE QM(RandomElement(Zq), w)])}, bq \in {TLCEval([b \in 1..nb |-> QM(QConj(w), bq0[b])])} :
   \E seen \in {Gseen(nb, nc, [b \in 1..nb |-> Len(bp[b])], hist)} :
   LET ini == IF nb = 1 THEN init ELSE 0
       world(b, i) == VAdd(VScale(QN(bq[b]), bt[b]), MatVec(RotM(bq[b]), bp[b][i]))           \* over QN
       imgc(c, b, i) == The({The({Vx(<<h[1], h[2]>>, h[3]) : h \in {MatVec(KM(ks[c]), VAdd(MatVec(RI(qs[c]), wd), VScale(QN(bq[b]), ts[c])))}}) : wd \in {world(b, i)}})
       img(c, b) == [i \in 1..Len(bp[b]) |-> IF seen[b][c][i] THEN imgc(c, b, i) ELSE Junk]
       ok(b) == Enough(seen[b], nc, mn, ini)
       gen(b) == \* the camera that decides sees the first four points
                 ini = 1 \/ ~ok(b) \/ (\A c \in 1..nc : Count(seen[b][c]) >= 4 => \A i \in 1..4 : seen[b][c][i])
       view(b) == \A c \in 1..nc : The({Seen(QM(qs[c], bq[b]), tt, bp[b]) : tt \in {VAdd(MatVec(RI(qs[c]), bt[b]), ts[c])}})
       well(b) == ~ok(b) \/ \E c \in 1..nc : Count(seen[b][c]) >= 4
   IN IF \E b \in 1..nb : ~gen(b) \/ ~well(b) \/ ~view(b) THEN DoNoisy ELSE
   Record("multi", <<nb, nc, mn, ini, Vx(e, 40), Vx(g, 400)>> \o [b \in 1..nb |-> Len(bp[b])] \o FlatTo([b \in 1..nb |-> Xs3(bp[b])], nb)
       \o FlatTo([c \in 1..nc |-> <<Mx(KM(ks[c]), 1), Qx(qs[c]), Vx(ts[c], 1)>> \o FlatTo([b \in 1..nb |-> img(c, b)], nb) \o FlatTo([b \in 1..nb |-> [i \in 1..Len(bp[b]) |-> IF seen[b][c][i] THEN 1 ELSE 0]], nb)], nc)
       \o (IF ini = 1 THEN <<Qx(bq[1]), Vx(bt[1], 1)>> ELSE <<>>),
     FlatTo([b \in 1..nb |-> IF ok(b) THEN <<Tol(4, 0), Tol(4, Qx(bq[b])), Tol(4, Vx(bt[b], 1))>> ELSE <<-1, Qx(QId), Vx(<<0, 0, 0>>, 1)>>], nb))
DoMrefuse == \E o \in {RandomElement({"few", "few", "cams2d", "camsw", "camsp", "camsk", "pts2d", "ptsw"})}, bu \in {R(0, 1)} : Record("multibad", <<o, bu>>, Exc)
\* bundle adjustment: images x / z, y / z
DoBundle == \E f \in {RandomElement({"", "", "f"})}, nc \in {R(2, 3)}, ps \in {Box(hist)}, e \in {RandomElement({0, 1, 2})} :
   \E qs \in {TLCEval([c \in 1..nc |-> Prim(Gq(hist))])}, ts \in {TLCEval([c \in 1..nc |-> Gt(hist)])}, dx \in {TLCEval([i \in 1..8 |-> Nudge(hist)])}, dt \in {TLCEval([i \in 1..nc |-> Nudge(hist)])}, dq \in {TLCEval([i \in 1..nc |-> Nudge(hist)])} :
   LET z3 == <<0, 0, 0>>
       img(c) == The({[i \in 1..8 |-> The({Vx(<<-h[1], -h[2]>>, h[3]) : h \in {MatVec(m, Hom(ps[i]))}})] : m \in {PN(Cam(<<1, 0, 0, 1, 0>>, qs[c], ts[c]))}}) IN
   Record("bundle" \o f, <<nc, 8>> \o Xs3(ps) \o [i \in 1..8 |-> Vx(IF e >= 1 THEN dx[i] ELSE z3, 40)]
       \o FlatTo([c \in 1..nc |-> <<Qx(qs[c]), Vx(ts[c], 1), Vx(IF e = 2 THEN dq[c] ELSE z3, 400), Vx(IF e = 2 THEN dt[c] ELSE z3, 40)>> \o img(c)], nc),
     <<1, Tol(IF f = "f" THEN 2 ELSE IF e = 0 THEN 6 ELSE 4, 0)>> \o (IF e = 0 THEN [i \in 1..8 |-> Tol(IF f = "f" THEN 3 ELSE 7, Vx(ps[i], 1))] \o FlatTo([c \in 1..nc |-> <<Tol(IF f = "f" THEN 3 ELSE 7, Qx(qs[c])), Tol(IF f = "f" THEN 3 ELSE 7, Vx(ts[c], 1))>>], nc) ELSE <<[any |-> 24 + 7 * nc]>>))
Do == \E c \in {R(1, 20)} :
   CASE c <= 3 -> DoPose("plane") [] c <= 5 -> DoPose("tilted") [] c <= 7 -> DoPose("space") [] c = 8 -> IF R(1, 4) = 1 THEN DoFew ELSE DoCol [] c = 9 -> DoHpose [] c <= 11 -> DoOpt [] c = 12 -> DoLu [] c = 13 -> DoCov1 [] c = 14 -> DoCov2 [] c = 15 -> DoNoisy
     [] c <= 18 -> DoMulti [] c = 19 -> DoBundle [] OTHER -> IF R(1, 3) = 1 THEN DoMrefuse ELSE DoBundle
GenNext == \/ More /\ Do
           \/ ~More /\ Finish
GenSpec == GenStart /\ [][GenNext]_<<hist, emitted>>
=============================================================================
