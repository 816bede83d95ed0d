------------------------------ MODULE LensGen ------------------------------
EXTENDS Lens, Gen
VARIABLES st, blob
R(lo, hi) == RandomElement(lo..hi)
NR == 4
\* parameters: small (undistortion is unique and converges) or large
GkSmall(n, h) == Pad(TLCEval([i \in 1..n |-> R(-8, 8)]))
GkLarge(n, h) == Pad(TLCEval([i \in 1..n |-> IF i <= 3 THEN R(-60, 60) ELSE R(0, 50)]))
NoPole(k) == \A r \in 0..32 : 4 * Poly(<<k[4], k[5], k[6]>>, r) > Den
Grad(n, h) == The({IF R(1, 3) > 1 /\ NoPole(k) THEN k ELSE GkLarge(n, h) : k \in {GkSmall(n, h)}})
Gtan(h) == IF R(1, 4) = 1 THEN <<0, 0>> ELSE <<R(-2, 2), R(-2, 2)>>
Gfoc(h) == IF R(1, 3) = 1 THEN R(1, 5) ELSE R(100, 900)
Gk(h) == <<Gfoc(h), RandomElement({0, 0, 1, -2}), R(-400, 400), RandomElement({-1, 1, 1}) * Gfoc(h), R(-400, 400), RandomElement({-1, 1})>>
Gp(h) == <<R(-4, 4), R(-4, 4)>>
Gps(n, h) == TLCEval([i \in 1..n |-> Gp(h)])
Rads(n) == RandomElement({2, 3, 6, 6, 4} \cap n)
KArg(k) == Mx(KMat(k), 1)
LensArg(l) == <<Vx(l.k, C), Vx(l.p, C)>>
Prec(h) == RandomElement({"d", "d", "f"})
T(pr, a, b, e) == Tol(IF pr = "d" THEN a ELSE b, e)
\* the registers
Put(i, c) == st' = [st EXCEPT ![i] = c] /\ UNCHANGED blob
DoMk == \E rs \in {RandomElement({2, 3, 6, 6, 4})}, i \in {R(1, NR)}, k \in {Gk(hist)}, dim \in {<<R(0, 2) * 320, R(0, 2) * 240>>} :
        \E rad \in {Grad(rs, hist)}, tan \in {IF rs = 4 THEN <<0, 0>> ELSE Gtan(hist)} :
          /\ Put(i, Cam(CalibType(rs), dim, k, rs, rad, tan))
          /\ Record("mk", <<i, rs, dim[1], dim[2], KArg(k), Vx(rad, C), Vx(tan, C)>>, <<>>)
DoGen == \E rs \in {RandomElement({0, 1, 2, 3, 5, 6, 6})}, i \in {R(1, NR)}, k \in {Gk(hist)}, dim \in {<<R(1, 2) * 320, R(1, 2) * 240>>}, wh \in {<<R(0, 1) * 100, R(0, 1) * 50>>} :
        \E rad \in {Grad(rs, hist)}, tan \in {Gtan(hist)} :
          /\ Put(i, Cam(CalibType(rs), <<IF wh[1] = 0 THEN dim[1] ELSE wh[1], IF wh[2] = 0 THEN dim[2] ELSE wh[2]>>, k, rs, rad, tan))
          /\ Record("gen", <<i, rs, dim[1], dim[2], wh[1], wh[2], KArg(k), Vx(rad, C), Vx(tan, C)>>, <<>>)
DoNew == \E i \in {R(1, NR)} : Put(i, NoCam) /\ Record("new", <<i>>, <<>>)
DoCopy == \E i \in {R(1, NR)}, j \in {R(1, NR)}, m \in {R(0, 1)} : Put(i, st[j]) /\ Record("copy", <<i, j, m>>, <<>>)
DoFlip == \E i \in {R(1, NR)}, j \in {R(1, NR)} : Put(i, Flip(st[i])) /\ Record("flip", <<i, j>>, <<>>)
DoSave == \E i \in {R(1, NR)}, f \in {RandomElement({"text", "binary", "msgpack", "zone"})} :
            /\ blob' = [some |-> TRUE, c |-> IF f \in {"text", "binary"} THEN Written(st[i]) ELSE st[i]] /\ UNCHANGED st
            /\ Record("save", <<i, f>>, <<>>)
DoLoad == \E i \in {R(1, NR)}, m \in {R(0, 1)} : Put(i, blob.c) /\ Record("load", <<i, m>>, <<>>)
Show(c) == <<c.type, c.rs, c.dim[1], c.dim[2], Mx(KMat(c.k), 1), Vx(c.rad, C), Vx(c.tan, C)>>
DoShow == \E i \in {R(1, NR)} : UNCHANGED <<st, blob>> /\ Record("show", <<i>>, Show(st[i]) \o <<Tol(6, Mx(KMat(st[i].k), 1)), Tol(6, Vx(st[i].rad, C)), Tol(6, Vx(st[i].tan, C))>>)
DoAngles == \E i \in {R(1, NR)}, pr \in {Prec(hist)} : \E c \in {st[i]} : UNCHANGED <<st, blob>>
            /\ Record("angles", <<pr, i>>, <<T(pr, 9, 4, Angle(c.dim[1], c.k[1])), T(pr, 9, 4, Angle(c.dim[2], c.k[4])), T(pr, 9, 4, Diagonal(c.dim[1], c.dim[2], c.k[1], c.k[4]))>>)
\* image points through a camera of the store (a camera with fisheye parameters is not for this model)
Far(l) == Monotone(l, 24)
DoDist(i) == \E c \in {st[i]}, pr \in {Prec(hist)}, n \in {R(0, 5)}, m \in {R(0, 3)} : \E l \in {LensOf(c)}, ps \in {Gps(n, hist)} :
     /\ UNCHANGED <<st, blob>>
     /\ Record("distl", <<pr, i, m, n>> \o TLCEval([j \in 1..n |-> Pixel(c.k, ps[j], D)]), <<n>> \o TLCEval([j \in 1..n |-> T(pr, 9, 3, The({PixelX(c.k, x) : x \in {DistX(l, ps[j])}}))]))
DoDist1(i) == \E c \in {st[i]}, pr \in {Prec(hist)}, m \in {R(0, 1)} : \E l \in {LensOf(c)}, p \in {Gp(hist)} :
     /\ UNCHANGED <<st, blob>>
     /\ Record("dist", <<pr, i, m>> \o <<Pixel(c.k, p, D)>>, <<T(pr, 9, 3, The({PixelX(c.k, x) : x \in {DistX(l, p)}}))>>)
Near(h) == RandomElement({p \in (-4..4) \X (-4..4) : R2(p) <= 20})
DoUndist(i) == \E c \in {st[i]}, pr \in {Prec(hist)}, n \in {R(0, 4)}, m \in {R(0, 3)} : \E l \in {LensOf(c)}, ps \in {TLCEval([j \in 1..n |-> Near(hist)])} :
     /\ UNCHANGED <<st, blob>>
     /\ Record("undistl", <<pr, i, m, n>> \o TLCEval([j \in 1..n |-> The({PixelX(c.k, x) : x \in {DistX(l, ps[j])}})]), <<n>> \o TLCEval([j \in 1..n |-> T(pr, 5, 3, Pixel(c.k, ps[j], D))]))
DoUndist1(i) == \E c \in {st[i]}, pr \in {Prec(hist)}, m \in {R(0, 1)} : \E l \in {LensOf(c)}, p \in {Near(hist)} :
     /\ UNCHANGED <<st, blob>>
     /\ Record("undist", <<pr, i, m>> \o The({PixelX(c.k, x) : x \in {DistX(l, p)}}), <<T(pr, 5, 3, Pixel(c.k, p, D))>>)
DoImage == \E i \in {R(1, NR)} :
     IF Fisheye(st[i]) THEN DoShow
     ELSE IF ~Far(LensOf(st[i])) \/ R(1, 2) = 1 THEN (IF R(1, 2) = 1 THEN DoDist(i) ELSE DoDist1(i))
     ELSE (IF R(1, 2) = 1 THEN DoUndist(i) ELSE DoUndist1(i))
\* distortion functions on the sensor, with their derivatives
DoJac == \E n \in {RandomElement({2, 3, 6, 6})} : \E l \in {[k |-> Grad(n, hist), p |-> Gtan(hist)]}, p \in {Gp(hist)} :
     /\ UNCHANGED <<st, blob>>
     /\ Record("jac", LensArg(l) \o <<Vx(p, D)>>, DistX(l, p) \o DistX(l, p) \o JacX(l, p))
L4(h) == [k |-> Grad(2, h), p |-> Gtan(h)]
Arg4(l) == <<Vx(<<l.k[1], l.k[2], l.p[1], l.p[2]>>, C)>>
DoRdp == \E l \in {L4(hist)}, p \in {Gp(hist)}, w \in {RandomElement({"p", "d"})} :
     /\ UNCHANGED <<st, blob>>
     /\ Record("rd" \o w, Arg4(l) \o <<Vx(p, D)>>, DistX(l, p) \o (IF w = "p" THEN JacX(l, p) ELSE JacDX(p)))
DoOld == \E l \in {L4(hist)}, p \in {Gp(hist)}, k \in {Gk(hist)}, pr \in {Prec(hist)} : \E u \in {PixelX(k, DistX(l, p))}, z \in {RandomElement({-1, 1})}, s \in {R(1, 5)}, q \in {Near(hist)} :
     /\ UNCHANGED <<st, blob>>
     /\ CASE R(1, 3) = 1 -> Record("ld", <<pr, KArg(k)>> \o Arg4(l) \o <<Pixel(k, p, D)>>, <<T(pr, 9, 3, u)>>)
          [] R(1, 2) = 1 /\ Far(l) -> Record("lud", <<pr, KArg(k)>> \o Arg4(l) \o PixelX(k, DistX(l, q)), <<T(pr, 5, 3, Pixel(k, q, D))>>)
          \* the point s (a, b, D z): seen at (a, b) / (D z k33)
          [] OTHER -> Record("pwd", <<pr, KArg(k)>> \o Arg4(l) \o <<Vx(VScale(s * z * k[6], p), 1), s * z * D>>, <<T(pr, 9, 3, u)>>)
GenInit == GenStart /\ st = [i \in 1..NR |-> NoCam] /\ blob = [some |-> FALSE, c |-> NoCam]
GenNext == IF ~More THEN Finish /\ UNCHANGED <<st, blob>>
           ELSE \E w \in {R(1, 20)} :
             CASE w <= 3 -> DoMk [] w = 4 -> DoGen [] w = 5 -> (IF R(1, 2) = 1 THEN DoNew ELSE DoFlip) [] w = 6 -> DoCopy
               [] w = 7 -> DoSave [] w = 8 -> (IF blob.some THEN DoLoad ELSE DoSave) [] w = 9 -> DoShow [] w = 10 -> DoAngles
               [] w <= 15 -> DoImage [] w = 16 -> DoJac [] w = 17 -> DoRdp [] OTHER -> DoOld
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted, st, blob>>
=============================================================================
