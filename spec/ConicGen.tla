------------------------------ MODULE ConicGen ------------------------------
(* Behaviours on four registers of conics, and images of quadrics. ex says  *)
(* that the numbers in a register are exact (halves and powers of two).     *)
EXTENDS Conic, Gen
VARIABLES reg
R(lo, hi) == RandomElement(lo..hi)
The(S) == CHOOSE a \in S : TRUE
NR == 4
Coef(h) == CASE R(1, 4) = 1 -> <<R(-6, 6), R(-6, 6), R(-6, 6), R(-6, 6), R(-6, 6), R(-6, 6)>>
             [] R(1, 3) = 1 -> The({<<a, b, c, R(-6, 6), R(-6, 6), R(-9, 0)>> : a \in {R(1, 5)}, b \in {R(-3, 3)}, c \in {R(1, 5)}})      \* ellipses, mostly
             [] R(1, 2) = 1 -> The({<<a, RandomElement({0, 0, 1, -1, 3, -3}), a, R(-6, 6), R(-6, 6), -s*R(1, 9)>> : s \in {R(0, 1)}, a \in {R(1, 4)}})    \* circles and diagonals
             [] OTHER -> The({<<a*a, 2*a*b, b*b, R(-6, 6), R(-6, 6), R(-6, 6)>> : a \in {R(-2, 2)}, b \in {R(-2, 2)}})                  \* parabolas and lines
Start(h) == The({IF R(1, 4) = 1 THEN VNeg(c) ELSE c : c \in {Coef(h)}})
Reg(v, d, ex) == The({[v |-> n.v, d |-> n.d, ex |-> ex] : n \in {Norm(v, d)}})
Fits(r) == MaxAbs(r.v) <= 400 /\ r.d <= 512
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512}
\* single precision where every product is exact
Small(r) == r.ex /\ Pow2(r.d) /\ r.d <= 16 /\ MaxAbs(r.v) <= 60
Prec(r, h) == IF Small(r) /\ R(1, 3) = 1 THEN "f" ELSE "d"
T(pr, x) == Tol(IF pr = "d" THEN 8 ELSE 3, x)
Cx(r) == Vx(r.v, r.d)
Keep == UNCHANGED reg
Put(j, r) == reg' = [reg EXCEPT ![j] = r]
DoSet == \E j \in {R(1, NR)}, d \in {RandomElement({1, 1, 2, 4, 16})}, v \in {Start(hist)} : \E r \in {Reg(v, d, TRUE)} : Put(j, r) /\ Record("set", <<j, Cx(r)>>, <<>>)
\* result into register j if it fits and, in single precision, only if it is exact; otherwise it is only shown
Into(op, pr, j, args, r) == IF Fits(r) /\ (pr = "d" \/ r.ex) THEN Put(j, r) /\ Record(op, <<pr, j>> \o args, <<T(pr, Cx(r))>>)
                            ELSE Keep /\ Record(op, <<pr, 0>> \o args, <<T(pr, Cx(r))>>)
DoMove == \E i \in {R(1, NR)}, j \in {R(1, NR)}, t \in {<<R(-6, 6), R(-6, 6)>>}, k \in {R(1, 2)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} :
          \E r \in {Reg(Translate(g.v, t, k), g.d * k * k, g.ex)} : Into("move", pr, j, <<i, Vx(t, k)>>, r)
Fac(h) == RandomElement({-2, -1, 1, 1, 2, 4})
DoScale == \E i \in {R(1, NR)}, j \in {R(1, NR)}, w \in {R(1, 2)}, m \in {R(1, 2)}, p \in {Fac(hist)}, q \in {Fac(hist)} : \E s \in {IF w = 1 THEN <<p, p>> ELSE <<p, q>>} :
           \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} : \E r \in {Reg(Scale(g.v, s, m), g.d * s[1] * s[1] * s[2] * s[2], g.ex)} : Into("scale", pr, j, <<i, w, Nx(s[1], m), Nx(s[2], m)>>, r)
DoFlip == \E i \in {R(1, NR)}, j \in {R(1, NR)}, h \in {R(1, 12)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} : Into("flip", pr, j, <<i, h>>, Reg(Flip(g.v, h), g.d, g.ex))
DoDual == \E i \in {R(1, NR)}, j \in {R(1, NR)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} :
          IF Det4(g.v) = 0 \/ MaxAbs(g.v) > 60 \/ g.d > 64 THEN DoSet
          ELSE \E r \in {Reg(VScale(g.d, Dual(g.v)), Det4(g.v), FALSE)} : Into("dual", pr, j, <<i>>, r)
\* ---- what a conic is
Q(op, i, pr, args, exp) == Keep /\ Record(op, <<pr, i>> \o args, exp)
B(b) == IF b THEN 1 ELSE 0
DoMat == \E i \in {R(1, NR)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} : Q("mat", i, pr, <<>>, <<T(pr, Mx(Mat2(g.v), 2 * g.d)), T(pr, Cx(g))>>)
DoFrom == \E pr \in {RandomElement({"d", "f"})}, m \in {TLCEval([r \in 1..3 |-> [c \in 1..3 |-> R(-9, 9)]])} : Keep /\ Record("from", <<pr>> \o Flat(m), FromMat(m))
DoEval == \E i \in {R(1, NR)}, p \in {<<R(-9, 9), R(-9, 9)>>}, k \in {R(1, 2)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} :
          Q("eval", i, pr, <<Vx(p, k)>>, <<T(pr, Nx(Eval(g.v, p[1], p[2], k), g.d * k * k))>>)
Dt(g) == Pr(<<Det4(g.v), Rcp(4 * g.d), Rcp(g.d), Rcp(g.d)>>)
DoDet == \E i \in {R(1, NR)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} : Q("det", i, pr, <<>>, <<T(pr, Dt(g))>>)
\* decisions only on exact numbers, thresholds n / 1024
DoKind == \E i \in {R(1, NR)}, n \in {RandomElement({1, 64, 1024, 4096})} : \E g \in {reg[i]} :
          IF ~g.ex \/ g.d > 16 \/ MaxAbs(g.v) > 60 \/ Det4(g.v) > 500000 \/ Det4(g.v) < -500000 THEN DoDet
          ELSE \E pr \in {Prec(g, hist)} : Q("kind", i, pr, <<Nx(n, 1024)>>,
            \* default thresholds 1/1000, 1/1000, 1/100
            <<B(Disc(g.v) > 0 /\ Abs(g.v[2]) * 1000 <= g.d /\ Abs(g.v[1] - g.v[3]) * 1000 <= g.d),
              B(Abs(Det4(g.v)) * 250 < g.d * g.d * g.d), B(Disc(g.v) > 0), B(Disc(g.v) < 0), B(Abs(Disc(g.v)) * 100 < g.d * g.d),
              B(Disc(g.v) > 0 /\ Abs(g.v[2]) * 1024 <= n * g.d /\ Abs(g.v[1] - g.v[3]) * 1024 <= n * g.d),
              B(Abs(Det4(g.v)) * 256 < n * g.d * g.d * g.d), B(Abs(Disc(g.v)) * 1024 < n * g.d * g.d)>>)
DoCentre == \E i \in {R(1, NR)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} :
            IF Disc(g.v) = 0 /\ ~g.ex THEN DoDet ELSE Q("centre", i, pr, <<>>, IF Disc(g.v) = 0 THEN <<[exc |-> "ubitrack"]>> ELSE <<T(pr, Centre(g.v))>>)
DoEcc == \E i \in {R(1, NR)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} :
         IF Det4(g.v) = 0 \/ Disc(g.v) = 0 \/ (Disc(g.v) > 0 /\ ~RealEll(g.v)) THEN DoDet ELSE Q("ecc", i, pr, <<>>, <<T(pr, Ecc2(g.v))>>)
\* an ellipse with points
Ells == {i \in 1..NR : RealEll(reg[i].v)}
DoShape == IF Ells = {} THEN DoSet ELSE \E i \in {RandomElement(Ells)} : \E g \in {reg[i]} : \E p \in {Pos(g.v)} : \E pr \in {Prec(g, hist)} :
             Q("shape", i, pr, <<>>, <<T(pr, Root(Major2(p))), T(pr, Root(Minor2(p))), T(pr, Area(p))>>)
DoAngle == IF Ells = {} THEN DoSet ELSE \E i \in {RandomElement(Ells)} : \E g \in {reg[i]} : \E p \in {Pos(g.v)} : \E pr \in {Prec(g, hist)} :
             IF IsCirc(p) THEN DoShape ELSE Q("angle", i, pr, <<>>, <<T(pr, Dir(p)[1]), T(pr, Dir(p)[2])>>)
DoBox == IF Ells = {} THEN DoSet ELSE \E i \in {RandomElement(Ells)} : \E g \in {reg[i]} : \E p \in {Pos(g.v)} : \E pr \in {Prec(g, hist)} :
             Q("box", i, pr, <<>>, <<T(pr, LimY(p)[1]), T(pr, LimY(p)[2]), T(pr, LimX(p)[1]), T(pr, LimX(p)[2])>>)
DoRow == \E i \in {R(1, NR)}, y \in {R(-12, 12)}, k \in {R(1, 4)} : \E g \in {reg[i]} : \E pr \in {Prec(g, hist)} :
         IF g.v[1] = 0 \/ MaxAbs(g.v) > 100 \/ RowDisc(g.v, y, k) <= 0 THEN DoEval
         ELSE \E s \in {IF g.v[1] > 0 THEN g.v ELSE VNeg(g.v)} :
              Q("row", i, pr, <<Nx(y, k)>>, <<T(pr, Pr(<<Sm(<<-RowB(s, y, k), Pr(<<-1, Root(RowDisc(s, y, k))>>)>>), Rcp(2 * s[1] * k)>>)),
                                              T(pr, Pr(<<Sm(<<-RowB(s, y, k), Root(RowDisc(s, y, k))>>), Rcp(2 * s[1] * k)>>))>>)
\* ---- quadrics
Camera(h) == TLCEval([r \in 1..3 |-> [c \in 1..4 |-> IF c = 4 THEN R(-6, 6) ELSE IF r = c THEN R(1, 3) ELSE R(-1, 1)]])
Image(op, p, args, lines) == \E pr \in {RandomElement({"d", "d", "f"})} :
         IF MaxAbs(lines) > 400 \/ Det4(lines) = 0 THEN Keep /\ Record("nothing", <<>>, <<>>)
         ELSE Keep /\ Record(op, <<pr>> \o Flat(p) \o args, <<T(pr, Vx(Dual(lines), Det4(lines)))>>)
GEll(h) == <<R(1, 4), R(1, 4), R(1, 4), R(-5, 5), R(-5, 5), R(-5, 5)>>
DoQuadric == \E p \in {Camera(hist)}, q \in {TLCEval([i \in 1..10 |-> R(-4, 4)])} : Image("pquadric", p, q, Lines(p, q))
DoEllipsoid == \E p \in {Camera(hist)}, e \in {GEll(hist)}, w \in {R(0, 1)} : Image(IF w = 0 THEN "pellipsoid" ELSE "pboth", p, e, Lines(p, OfEll(e)))
DoSpheroid == \E p \in {Camera(hist)}, s \in {<<R(1, 4), R(1, 4), R(-5, 5), R(-5, 5)>>} : Image("pspheroid", p, s, Lines(p, OfEll(OfSpheroid(s))))
DoOfEll == \E e \in {GEll(hist)}, pr \in {RandomElement({"d", "f"})} : Keep /\ Record("ellipsoid", <<pr>> \o e, OfEll(e))
GenInit == GenStart /\ reg = [i \in 1..NR |-> [v |-> <<1, 0, 1, 0, 0, -1>>, d |-> 1, ex |-> TRUE]]
GenNext == IF ~More THEN Finish /\ Keep
           ELSE \E w \in {R(1, 30)} :
             CASE w <= 5 -> DoSet [] w <= 8 -> DoMove [] w <= 10 -> DoScale [] w = 11 -> DoFlip [] w <= 13 -> DoDual
               [] w = 14 -> DoMat [] w = 15 -> DoFrom [] w = 16 -> DoEval [] w = 17 -> DoDet [] w <= 19 -> DoKind
               [] w = 20 -> DoCentre [] w = 21 -> DoEcc [] w <= 23 -> DoShape [] w = 24 -> DoAngle [] w = 25 -> DoBox
               [] w = 26 -> DoRow [] w = 27 -> DoQuadric [] w = 28 -> DoEllipsoid [] w = 29 -> DoSpheroid [] OTHER -> DoOfEll
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted, reg>>
=============================================================================
