----------------------------- MODULE CameraGen -----------------------------
EXTENDS Camera, Gen
R(lo, hi) == RandomElement(lo..hi)
Gq(h) == IF R(1, 2) = 1 THEN RandomElement(Octa) ELSE <<R(-2, 2), R(-2, 2), R(-1, 1), R(1, 2)>>
SmallQ == TLCEval({q \in (-1..1) \X (-1..1) \X (-1..1) \X (-1..1) : QN(q) > 0})
Gqs(h) == RandomElement(SmallQ)
Gk(h) == IF R(1, 2) = 1 THEN <<R(1, 6), R(-1, 1), R(-4, 4), RandomElement({-5, -2, -1, 1, 3, 4}), R(-4, 4)>>
         ELSE <<R(200, 600), RandomElement({0, 0, 3, -2}), -R(0, 400), RandomElement({-1, 1}) * R(200, 600), -R(0, 300)>>
Gks(h) == <<R(1, 4), R(-1, 1), R(-3, 3), RandomElement({-3, -1, 1, 2, 3}), R(-3, 3)>>
Gt(h) == <<R(-5, 5), R(-5, 5), R(-30, -22)>>
Gx(h) == <<R(-7, 7), R(-7, 7), R(-7, 7)>>
Gxs(n, h) == TLCEval([i \in 1..n |-> Gx(h)])
Ix(c, p) == The({Vx(<<i[1], i[2]>>, i[3]) : i \in {Img(c, p)}})
Im(m, p) == The({Vx(<<i[1], i[2]>>, i[3]) : i \in {MatVec(m, Hom(p))}})
Ixs(c, ps) == The({TLCEval([i \in 1..Len(ps) |-> Im(m, ps[i])]) : m \in {PN(c)}})
Xs3(ps) == TLCEval([i \in 1..Len(ps) |-> Vx(ps[i], 1)])
Px4(c) == Mx(PN(c), QN(c.q))
\* the corners of a box and some more points
Box(h) == LET o == <<R(-3, 3), R(-3, 3), R(-3, 3)>> e == <<R(2, 4), R(2, 4), R(2, 4)>> IN
   TLCEval([i \in 1..8 |-> VAdd(o, <<IF i % 2 = 0 THEN e[1] ELSE -e[1], IF (i \div 2) % 2 = 0 THEN e[2] ELSE -e[2], IF (i \div 4) % 2 = 0 THEN e[3] ELSE -e[3]>>)])
Fl == {"", "f"}
T(f) == IF f = "f" THEN 2 ELSE 6
DoDlt == \E f \in {RandomElement(Fl)} : \E c \in {Cam(IF f = "f" THEN Gks(hist) ELSE Gk(hist), Prim(Gq(hist)), Gt(hist))}, ps \in {Box(hist) \o Gxs(R(0, 4), hist)} :
   Record("dlt" \o f, <<Len(ps)>> \o Xs3(ps) \o Ixs(c, ps), <<Tol(T(f), Px4(c))>>)
DoDec == \E f \in {RandomElement(Fl)}, c \in {Cam(Gk(hist), Prim(Gq(hist)), <<R(-9, 9), R(-9, 9), R(-9, -1)>>)}, s \in {RandomElement({<<1, 1>>, <<-1, 1>>, <<5, 2>>, <<-1, 3>>, <<7, 1>>})} :
   Record("decomp" \o f, <<Mx(MScale(s[1], PN(c)), s[2] * QN(c.q))>>, <<Tol(IF f = "f" THEN 2 ELSE 7, Mx(KM(c.k), 1)), Tol(T(f), Mx(RotM(c.q), QN(c.q))), Tol(IF f = "f" THEN 1 ELSE T(f), Vx(c.t, 1))>>)
\* what OpenGL sees: borders at -1 and 1, near plane at -1, far plane at 1
DoGl == \E f \in {RandomElement({"", "f", "3", "3f"})}, c \in {Cam(Gks(hist), Prim(Gqs(hist)), Gt(hist))}, p \in {Gx(hist)}, l \in {R(-9, 9)}, w \in {R(1, 20)}, bo \in {R(-9, 9)}, h \in {RandomElement({-7, -2, 1, 5, 12})}, n \in {R(1, 5)}, d \in {R(1, 50)} :
   LET k3 == f \in {"3", "3f"}
       cc == IF k3 THEN Cam(c.k, QId, <<0, 0, 0>>) ELSE c
       q == IF k3 THEN <<p[1], p[2], -Abs(p[3]) - 1>> ELSE p
       i == TLCEval(Img(cc, q)) nn == QN(cc.q) fa == n + d IN
   Record("gl" \o f, <<l, l + w, bo, bo + h, n, fa, IF k3 THEN Mx(KM(c.k), 1) ELSE Px4(c), Vx(q, 1)>>,
      <<Tol(IF f \in {"f", "3f"} THEN 3 ELSE 8, Nx(2 * (i[1] - l * i[3]) - w * i[3], w * i[3])), Tol(IF f \in {"f", "3f"} THEN 3 ELSE 8, Nx(2 * (i[2] - bo * i[3]) - h * i[3], h * i[3])),
        Tol(IF f \in {"f", "3f"} THEN 3 ELSE 8, Nx((fa + n) * i[3] - 2 * fa * n * nn, d * i[3])), Tol(IF f \in {"f", "3f"} THEN 3 ELSE 8, Nx(i[3], nn))>>)
\* a screen of size w x h with corner ll and orientation q, an eye at (l, bo, e) of its frame
DoOff == \E q \in {Prim(Gq(hist))}, ll \in {Gx(hist)}, w \in {R(1, 9)}, h \in {R(1, 9)}, l \in {R(-5, 9)}, bo \in {R(-5, 9)}, e \in {R(1, 9)}, n \in {R(1, 4)}, d \in {R(1, 20)}, x \in {R(-9, 9)}, y \in {R(-9, 9)}, dl \in {R(1, 20)} :
   LET nn == QN(q) P(v) == Vx(VAdd(VScale(nn, ll), MatVec(RotM(q), v)), nn) fa == n + d IN
   Record("offaxis", <<P(<<l, bo, e>>), P(<<0, 0, 0>>), P(<<0, h, 0>>), P(<<w, 0, 0>>), n, fa, w, h, P(<<x, y, e - dl>>)>>,
      <<Nx(2 * (l * dl + (x - l) * e) - w * dl, w * dl), Nx(2 * (bo * dl + (y - bo) * e) - h * dl, h * dl), Nx((fa + n) * dl - 2 * fa * n, d * dl), dl>>)
DoOrigin == \E f \in {RandomElement(Fl)}, k \in {Gk(hist)}, h \in {R(1, 800)}, o \in {R(0, 2)} :
   Record("origin" \o f, <<o, h, Mx(KM(k), 1)>>, <<Mx(KM(IF o = 0 THEN Flip(k, h) ELSE k), 1)>>)
\* homographies: up to scale, relative to their largest entry
Big(m) == LET mx == TLCEval(The({MaxAbs(fl) : fl \in {Flat(m)}})) IN CHOOSE ij \in (1..3) \X (1..3) : Abs(m[ij[1]][ij[2]]) = mx
RelM(m) == The({IF k < 0 THEN Mx(MScale(-1, m), -k) ELSE Mx(m, k) : k \in {The({m[z[1]][z[2]] : z \in {Big(m)}})}})
BigArg(m) == LET z == Big(m) IN <<z[1] - 1, z[2] - 1>>
Gh(h) == TLCEval(<< <<R(-6, 6), R(-6, 6), R(-6, 6)>>, <<R(-6, 6), R(-6, 6), R(-6, 6)>>, <<R(-1, 1), R(-1, 1), R(15, 20)>> >>)
Tri(u, v, w) == Det2(<<VSub(v, u), VSub(w, u)>>)
General(ps) == \A i, j, k \in 1..Len(ps) : i < j /\ j < k => Abs(Tri(ps[i], ps[j], ps[k])) >= 4
DoHomo == \E f \in {RandomElement(Fl)}, m \in {Gh(hist)}, ps \in {TLCEval([i \in 1..4 |-> <<R(-6, 6), R(-6, 6)>>])}, more \in {TLCEval([i \in 1..RandomElement({0, 0, 1, 5}) |-> <<R(-6, 6), R(-6, 6)>>])} :
   LET all == ps \o more im(p) == LET v == MatVec(m, Hom(p)) IN Vx(<<v[1], v[2]>>, v[3]) IN
   IF General(ps) /\ Abs(Det3(m)) >= 40 THEN Record("homo" \o f, BigArg(m) \o <<Len(all)>> \o [i \in 1..Len(all) |-> Vx(all[i], 1)] \o [i \in 1..Len(all) |-> im(all[i])], <<Tol(T(f), RelM(m))>>)
   ELSE DoOrigin
\* the square with corners (-1/2, 1/2), (-1/2, -1/2), (1/2, -1/2), (1/2, 1/2)
Sq == << <<-1, 1, 2>>, <<-1, -1, 2>>, <<1, -1, 2>>, <<1, 1, 2>> >>
DoSquare == \E f \in {RandomElement(Fl)}, m \in {Gh(hist)} :
   LET im(p) == LET v == MatVec(m, p) IN Vx(<<v[1], v[2]>>, v[3]) IN
   IF Abs(Det3(m)) >= 40 THEN Record("square" \o f, BigArg(m) \o [i \in 1..4 |-> im(Sq[i])], <<Tol(T(f), RelM(m))>>) ELSE DoOrigin
\* two views
Rig(h) == <<Cam(Gks(h), Prim(Gqs(h)), Gt(h)), Cam(Gks(h), Prim(Gqs(h)), Gt(h))>>
Apart(u, v) == LET t == RelT(u, v) IN Norm2(t) >= 50 * QN(u.q) * QN(v.q) * QN(u.q) * QN(v.q)
DoFpose == \E r \in {Rig(hist)} : \E m \in {TLCEval(Fund(r[1], r[2]))} :
   IF ~Apart(r[1], r[2]) THEN DoDlt ELSE Record("fpose", BigArg(m) \o <<Mx(KM(r[1].k), 1), Qx(r[1].q), Vx(r[1].t, 1), Mx(KM(r[2].k), 1), Qx(r[2].q), Vx(r[2].t, 1)>>, <<RelM(m)>>)
DoFmat == \E f \in {RandomElement(Fl)}, r \in {Rig(hist)}, st \in {RandomElement({1, 1, 2, 3})}, ps \in {Gxs(R(16, 20), hist)} : \E m \in {TLCEval(Fund(r[1], r[2]))} :
   LET junk == <<Vx(<<st, -4>>, 1), Vx(<<-3, 5 + st>>, 1)>>
       S(c) == The({TLCEval([k \in 1..(Len(ps) * st) |-> IF (k - 1) % st = 0 THEN im[1 + (k - 1) \div st] ELSE junk[((k - 1) % st)]]) : im \in {Ixs(c, ps)}}) IN
   IF ~Apart(r[1], r[2]) THEN DoDlt ELSE Record("fmat" \o f, BigArg(m) \o <<st, Len(ps) * st>> \o S(r[1]) \o S(r[2]), <<Tol(IF f = "f" THEN 1 ELSE 5, RelM(m))>>)
\* the second camera relative to the first, its distance taken as one
Pyth == {<<1, 2, 2>>, <<-2, 3, 6>>, <<0, 3, -4>>, <<1, 0, 0>>, <<0, 0, -2>>, <<4, -4, 7>>, <<2, 1, -2>>, <<0, -5, 0>>}
Len2(e) == CHOOSE k \in 0..20 : k * k = Norm2(e)
DoEpose == \E k \in {<<Gks(hist), Gks(hist)>>}, q \in {Prim(<<R(-2, 2), R(-2, 2), R(-2, 2), R(2, 4)>>)}, t \in {RandomElement(Pyth)}, p \in {<<R(-6, 6), R(-6, 6), R(-25, -8)>>}, s \in {RandomElement({1, -1, 3})} :
   LET c1 == Cam(k[1], QId, <<0, 0, 0>>) c2 == Cam(k[2], q, t) IN
   \E m \in {TLCEval(Fund(c1, c2))} :
   IF Front(c2, p) /\ ~IsZero(Cross(MatVec(RotM(q), p), t)) THEN Record("epose", <<Mx(MScale(s, m), 1), Ix(c1, p), Ix(c2, p), Mx(KM(k[1]), 1), Mx(KM(k[2]), 1)>>, <<Tol(6, Qx(q)), Tol(6, Vx(t, Len2(t)))>>) ELSE DoFpose
DoTri == \E f \in {RandomElement(Fl)}, r \in {Rig(hist)}, c3 \in {Rig(hist)}, p \in {Gx(hist)}, o \in {RandomElement({"tri2", "trin", "trin", "triopt", "trires"})}, n \in {R(2, 4)} :
   LET cs == SubSeq(r \o c3, 1, n)
       away(u, v) == LET e == MatVec(Fund(u, v), Img(u, p)) IN ~IsZero(e) /\ Apart(u, v)
       ff == IF o = "trires" THEN "" ELSE f IN
   IF ~away(r[1], r[2]) THEN DoDlt
   ELSE IF o = "tri2" THEN Record(o \o ff, <<Px4(r[1]), Px4(r[2]), Ix(r[1], p), Ix(r[2], p)>>, <<Tol(IF ff = "f" THEN 1 ELSE 6, Vx(p, 1))>>)
   ELSE Record(o \o ff, <<n>> \o [i \in 1..n |-> Px4(cs[i])] \o [i \in 1..n |-> Ix(cs[i], p)], <<Tol(IF ff = "f" THEN 1 ELSE 6, Vx(p, 1))>> \o (IF o = "trires" THEN <<0>> ELSE <<>>))
DoRefuse == \E o \in {RandomElement({"trione", "trione", "trimis", "fstep", "fmis", "ffew"})}, f \in {RandomElement(Fl)} : Record(o \o f, <<R(0, 1)>>, Exc)
\* matching image points by their epipolar lines, then triangulating
DoRecon == \E f \in {RandomElement(Fl)}, r \in {Rig(hist)}, ps \in {Gxs(R(2, 5), hist)}, lose \in {RandomElement({0, 0, 1, 2, 3})}, rot \in {R(0, 4)} : \E m \in {TLCEval(Fund(r[1], r[2]))}, p1 \in {PN(r[1])}, p2 \in {PN(r[2])}, n \in {Len(ps)} :
   \E i1 \in {TLCEval([i \in 1..n |-> MatVec(p1, Hom(ps[i]))])}, i2 \in {TLCEval([i \in 1..n |-> MatVec(p2, Hom(ps[i]))])} :
   \E ln \in {TLCEval([i \in 1..n |-> IF MaxAbs(Flat(m)) < 20000 /\ MaxAbs(i1[i]) < 30000 THEN MatVec(m, i1[i]) ELSE <<99999, 99999, 99999>>])}, perm \in {TLCEval([k \in 1..n |-> ((k + rot - 1) % n) + 1])} :
   \E ord \in {IF lose = 1 /\ n > 2 THEN SubSeq(perm, 1, n - 1) ELSE perm}, first \in {IF lose = 2 /\ n > 2 THEN SubSeq(ps, 1, n - 1) ELSE ps} :
   \E found \in {SelectSeq(first, LAMBDA p : \E k \in 1..Len(ord) : ps[ord[k]] = p)} :
   IF Apart(r[1], r[2]) /\ Cardinality({ps[i] : i \in 1..n}) = n /\ (\A i \in 1..n : MaxAbs(ln[i]) < 20000 /\ MaxAbs(i2[i]) < 5000 /\ ~IsZero(ln[i]))
      /\ (\A i, k \in 1..n : i # k => Dot(i2[k], ln[i]) # 0 /\ ln[i][1] * ln[i][1] + ln[i][2] * ln[i][2] > 0) THEN
      Record("recon", <<Len(first), Len(ord)>> \o Ixs(r[1], first) \o [k \in 1..Len(ord) |-> Im(p2, ps[ord[k]])] \o <<Px4(r[1]), Px4(r[2]), RelM(m)>>,
             <<Len(found)>> \o [i \in 1..Len(found) |-> Tol(5, Vx(found[i], 1))])
   ELSE DoRefuse
\* squared distance from an epipolar line
DoDist == \E f \in {RandomElement(Fl)}, m \in {Gh(hist)}, u \in {<<R(-9, 9), R(-9, 9)>>}, v \in {<<R(-9, 9), R(-9, 9)>>}, o \in {RandomElement({"dist", "dist3", "distobj"})} :
   LET l == MatVec(m, Hom(u)) e == Dot(l, Hom(v)) d == l[1] * l[1] + l[2] * l[2] IN
   IF d = 0 \/ Abs(e) > 40000 THEN DoRefuse ELSE Record(o \o f, <<Mx(m, 1), Vx(u, 1), Vx(v, 1)>>, <<Tol(IF f = "f" THEN 3 ELSE 8, Nx(e * e, d))>>)
\* applying matrices to points of fewer, as many or more coordinates
Pad(v, n, h) == IF Len(v) = n THEN v ELSE IF Len(v) = n - 1 THEN v \o <<1>> ELSE IF n = 3 THEN v ELSE v \o <<0, 1>>
DoApply == \E f \in {RandomElement(Fl)}, sh \in {RandomElement({<<2, 3, 2>>, <<2, 3, 3>>, <<3, 3, 2>>, <<3, 3, 3>>, <<3, 4, 2>>, <<3, 4, 3>>, <<3, 4, 4>>, <<4, 4, 2>>, <<4, 4, 3>>, <<4, 4, 4>>})} :
   \E m \in {TLCEval([i \in 1..sh[1] |-> [j \in 1..sh[2] |-> R(-9, 9)]])}, vs \in {TLCEval([k \in 1..R(1, 3) |-> [i \in 1..sh[3] |-> R(-9, 9)]])} :
   Record("apply" \o f, sh \o <<Len(vs), Mx(m, 1)>> \o [k \in 1..Len(vs) |-> Vx(vs[k], 1)], [k \in 1..Len(vs) |-> Vx(MatVec(m, Pad(vs[k], sh[2], hist)), 1)])
DoProj == \E f \in {RandomElement(Fl)}, sh \in {RandomElement({<<3, 2>>, <<4, 2>>, <<4, 3>>, <<4, 4>>})} :
   \E m \in {TLCEval([i \in 1..3 |-> [j \in 1..sh[1] |-> R(-9, 9)]])}, vs \in {TLCEval([k \in 1..R(1, 3) |-> [i \in 1..sh[2] |-> R(-9, 9)]])} :
   LET im(k) == MatVec(m, Pad(vs[k], sh[1], hist)) IN
   IF \E k \in 1..Len(vs) : im(k)[3] = 0 THEN DoApply ELSE
   Record("project" \o f, sh \o <<Len(vs), Mx(m, 1)>> \o [k \in 1..Len(vs) |-> Vx(vs[k], 1)], [k \in 1..Len(vs) |-> Tol(IF f = "f" THEN 3 ELSE 9, LET i == im(k) s == IF i[3] < 0 THEN -1 ELSE 1 IN Vx(<<s * i[1], s * i[2]>>, s * i[3]))])
\* shift and squared scale of a point set, anywhere in space
DoNorm == \E f \in {RandomElement(Fl)} : \E n \in {R(2, 6)}, o \in {IF f = "f" THEN 0 ELSE RandomElement({0, 0, 1000, -3000})} : \E ps \in {TLCEval([i \in 1..n |-> <<R(-5, 5), R(-5, 5), R(-5, 5)>>])} :
   LET s == [j \in 1..3 |-> Sum([i \in 1..n |-> ps[i][j]])]
       q == [j \in 1..3 |-> Sum([i \in 1..n |-> ps[i][j] * ps[i][j]])] IN
   IF \E j \in 1..3 : n * q[j] = s[j] * s[j] THEN DoApply ELSE
   Record("norm" \o f, <<n, o>> \o Xs3(ps), <<Tol(IF f = "f" THEN 2 ELSE 6, Vx(s, n)), Tol(IF f = "f" THEN 2 ELSE 6, Vx([j \in 1..3 |-> n * q[j] - s[j] * s[j]], n * n)), Tol(IF f = "f" THEN 2 ELSE 6, Mx(Ident(4), 1)), Tol(IF f = "f" THEN 2 ELSE 6, Vx(<<0, 0, 0>>, 1))>>)
Do == \E c \in {R(1, 28)} :
   CASE c <= 2 -> DoDlt [] c <= 5 -> DoDec [] c <= 7 -> DoGl [] c <= 9 -> DoOff [] c = 10 -> DoOrigin [] c <= 12 -> DoHomo [] c <= 14 -> DoSquare [] c <= 16 -> DoFpose [] c = 17 -> DoFmat [] c <= 19 -> DoEpose
     [] c <= 21 -> DoTri [] c = 22 -> DoRefuse [] c <= 24 -> DoRecon [] c = 25 -> DoDist [] c = 26 -> DoApply [] c = 27 -> DoProj [] OTHER -> DoNorm
GenNext == \/ More /\ Do
           \/ ~More /\ Finish
GenSpec == GenStart /\ [][GenNext]_<<hist, emitted>>
=============================================================================
