------------------------------ MODULE StatsGen ------------------------------
(* Behaviours of a file of averagers (two of each kind, fed one value or a  *)
(* list at a time, read in between) mixed with the batch computations.      *)
EXTENDS Stats, Gen, SequencesExt
VARIABLES lin, rot
R(lo, hi) == RandomElement(lo..hi)
RI(S, h) == RandomElement(S)
T(p, a, b, e) == Tol(IF p = "d" THEN a ELSE b, e)
Pt(n, b, h) == TLCEval([i \in 1..n |-> R(-b, b)])
Pts(k, n, b, h) == TLCEval([i \in 1..k |-> Pt(n, b, i)])
\* ---- averagers of numbers and vectors
Kinds == {"double", "float", "scalar", "vec2", "vec3f", "err2", "err3"}
KDim(k) == CASE k \in {"vec2", "err2"} -> 2 [] k \in {"vec3f", "err3"} -> 3 [] OTHER -> 1
Flt(k) == IF k \in {"float", "vec3f"} THEN "f" ELSE "d"
DoAdd == \E k \in {RI(Kinds, hist)}, s \in {R(1, 2)}, m \in {R(0, 1)}, c \in {R(1, 4)} : \E l \in {Pts(c, KDim(k), IF R(1, 5) = 1 THEN 900 ELSE 9, hist)} :
         IF Len(lin[k][s]) > 12 THEN lin' = [lin EXCEPT ![k][s] = <<>>] /\ UNCHANGED rot /\ Record("clear", <<k, s>>, <<>>) ELSE
           lin' = [lin EXCEPT ![k][s] = @ \o l] /\ UNCHANGED rot /\ Record("add", <<k, s, m, c>> \o l, <<>>)
DoCopy == \E k \in {RI(Kinds, hist)} : lin' = [lin EXCEPT ![k][2] = lin[k][1]] /\ UNCHANGED rot /\ Record("copy", <<k>>, <<>>)
GetL(k, s) == \E l \in {lin[k][s]} : \E n \in {Len(l)} :
         Record("get", <<k, s>>, <<T(Flt(k), 9, 4, Vx(VSum(l), n))>> \o (IF k \in {"err2", "err3"} THEN <<Tol(6, Mx(Cov(l), n * n))>> ELSE <<>>))
DoGet == \E k \in {RI(Kinds, hist)}, s \in {R(1, 2)} : UNCHANGED <<lin, rot>> /\ IF lin[k][s] = <<>> THEN Record("clearget", <<k>>, <<>>) ELSE GetL(k, s)
\* ---- averagers of rotations and poses
RKinds == {"quat", "pose", "errpose"}
Units(D) == {QMul(p, p) : p \in {x \in (-1..1) \X (-1..1) \X (-1..1) \X {3, 4} : Norm2(x) = D}}
Empty == [q |-> QId, D |-> 10, v |-> <<>>, t |-> <<>>]
QSome(h) == RI({q \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : ~IsZero(q)}, h)
QPi(h) == RI({q \in (-2..2) \X (-2..2) \X (-2..2) \X {0} : ~IsZero(q)}, h)
DoRot == \E k \in {RI(RKinds, hist)}, s \in {R(1, 2)} : \E q \in {IF R(1, 2) = 1 THEN QPi(hist) ELSE QSome(hist)}, D \in {RI({10, 17, 18}, hist)} :
         rot' = [rot EXCEPT ![k][s] = [Empty EXCEPT !.q = q, !.D = D]] /\ UNCHANGED lin /\ Record("clear", <<k, s>>, <<>>)
Wire(k, q, e, t, sg) == IF k = "quat" THEN <<[qs |-> VScale(sg, QMul(q, e))]>> ELSE <<[qs |-> VScale(sg, QMul(q, e))], Vx(t, 1)>>
DoAddR == \E k \in {RI(RKinds, hist)}, s \in {R(1, 2)}, m \in {R(0, 1)} : \E r \in {rot[k][s]} :
          IF Len(r.v) > 10 THEN DoRot ELSE
          \E e \in {IF R(1, 5) = 1 THEN <<0, 0, 0, r.D>> ELSE RI(Units(r.D), hist)}, a \in {Pt(3, 9, 1)}, b \in {Pt(3, 9, 2)}, sa \in {RI({-1, 1}, 1)}, sb \in {RI({-1, 1}, 2)} :
            /\ rot' = [rot EXCEPT ![k][s] = [@ EXCEPT !.v = @ \o <<QIm(e), QIm(QConj(e))>>, !.t = @ \o <<a, b>>]] /\ UNCHANGED lin
            /\ Record("add", <<k, s, m, 2>> \o Wire(k, r.q, e, a, sa) \o Wire(k, r.q, QConj(e), b, sb), <<>>)
DoGetR == \E k \in {RI(RKinds, hist)}, s \in {R(1, 2)} : \E r \in {rot[k][s]} :
          IF r.v = <<>> THEN DoRot ELSE UNCHANGED <<lin, rot>> /\
          \E n \in {Len(r.v)} : Record("get", <<k, s>>, <<Tol(8, Qx(r.q))>> \o (IF k = "quat" THEN <<>> ELSE <<Vx(VSum(r.t), n)>>)
              \o (IF k = "errpose" THEN <<[i \in 1..36 |-> T("d", 8, 8, PoseCov(r.t, r.v, r.D)[((i - 1) \div 6) + 1][((i - 1) % 6) + 1])]>> ELSE <<>>))
\* ---- correlation
Nums(k, b, h) == TLCEval([i \in 1..k |-> R(-b, b)])
DoCorr == \E k \in {R(2, 7)}, x \in {RI({0, 0, 1, 2}, hist)}, w \in {R(0, 2)}, o \in {R(1, 6)} : \E a \in {Nums(k + x, 9, 1)}, b \in {Nums(k, 9, 2)} :
          \E c \in {CASE o = 1 -> VScale(3, b) [] o = 2 -> VScale(-2, b) [] OTHER -> SubSeq(a, 1, k)} :
          \E u \in {IF o < 3 THEN c ELSE a} :
          IF Var1(c) = 0 \/ Var1(b) = 0 THEN Record("corr", <<w, 0, 0>>, <<1>>)
          ELSE Record("corr", <<w, Len(u), k>> \o u \o b, <<T(IF w = 2 THEN "f" ELSE "d", 9, 4, Pr(<<CorN(c, b), Rcp(Fn("sqrt", <<Var1(c)>>)), Rcp(Fn("sqrt", <<Var1(b)>>))>>))>>)
\* ---- Gaussians
GOut(p, m, dm, c, dc) == <<1, T(p, 9, 3, Vx(m, dm)), T(p, 9, 3, Mx(c, dc)), T(p, 9, 3, Nx(Trace(c), dc)), T(p, 9, 3, Fn("sqrt", <<Nx(Trace(c), dc)>>))>>
DoGauss == \E p \in {RI({"d", "f"}, hist)}, n \in {R(1, 3)}, k \in {R(0, 7)} : \E l \in {Pts(k, n, 9, hist)} :
           IF k = 0 THEN Record("gauss", <<p, n, 0>>, <<0>>) ELSE Record("gauss", <<p, n, k>> \o l, GOut(p, VSum(l), k, Cov(l), k * k))
DoGaussW == \E p \in {RI({"d", "f"}, hist)}, n \in {R(1, 3)}, k \in {R(0, 6)} : \E l \in {Pts(k, n, 9, hist)}, w \in {TLCEval([i \in 1..k |-> R(0, 5)])} :
            IF k = 0 THEN Record("gaussw", <<p, n, 0>>, <<0>>) ELSE
            \E ww \in {IF IsZero(w) THEN [w EXCEPT ![1] = 1] ELSE w} : \E W \in {Sum(ww)} :
              Record("gaussw", <<p, n, k>> \o l \o [i \in 1..k |-> Nx(ww[i], W)], GOut(p, WSum(l, ww), W, WCov(l, ww), W * W))
DoGaussI == \E p \in {RI({"d", "f"}, hist)}, n \in {R(1, 3)}, k \in {R(0, 7)}, c \in {R(0, 2)} : \E l \in {Pts(k, n, 9, hist)}, idx \in {TLCEval([i \in 1..k |-> R(0, 2)])} :
            \E sel \in {Pick2(Sel(l, idx, c))} :
              Record("gaussi", <<p, n, k, c>> \o l \o idx, IF sel = <<>> THEN <<0>> ELSE GOut(p, VSum(sel), Len(sel), Cov(sel), Len(sel) * Len(sel)))
GWire(g) == <<Vx(g.m, g.dm), Mx(g.c, g.dc)>>
SomeG(n, b, h) == LET l == Pts(n + R(1, 3), n, b, h) IN The({Gauss(VSum(x), Len(x), Cov(x), Len(x) * Len(x)) : x \in {l}})
Wide(g) == [g EXCEPT !.c = MAdd(@, Diag([d \in 1..Len(g.m) |-> 4 * g.dc]))]
DoMahal == \E n \in {R(1, 3)} : \E g \in {SomeG(n, 4, hist)}, x \in {Pt(n, 5, 1)}, u \in {RI({<<1, 2, -1>>, <<2, 2, 1>>, <<0, 0, 0>>, <<0, 1, 4>>}, hist)}, o \in {R(1, 5)} :
           IF o = 1 /\ n > 1 THEN Record("mahal", <<n, Vx(Zero(n), 1), Mx(Outer(SubSeq(u, 1, n), SubSeq(u, 1, n)), 1)>> \o x, Exc)
           ELSE IF Det(g.c) = 0 THEN DoGauss
           ELSE Record("mahal", <<n>> \o GWire(g) \o x, <<Tol(7, Fn("sqrt", <<Mah(g, x)>>))>>)
DoLik == \E n \in {R(1, 2)}, k \in {R(1, 3)}, m \in {R(1, 4)} : \E gs \in {TLCEval([i \in 1..k |-> Wide(SomeG(n, 4, i))])}, w \in {TLCEval([i \in 1..k |-> R(1, 5)])}, xs \in {Pts(m, n, 4, hist)} :
         IF \E i \in 1..k : Det(gs[i].c) = 0 THEN DoGauss
         ELSE \E W \in {Sum(w)} : Record("lik", <<n, k, m>> \o [i \in 1..k |-> <<Nx(w[i], W)>> \o GWire(gs[i])] \o xs, <<Tol(6, LogLik(gs, w, W, xs))>>)
\* ---- k-means
MeansOf(r) == [k \in 1..Len(r.m) |-> Vx(r.m[k], U)]
IdxOf(r) == [i \in 1..Len(r.idx) |-> r.idx[i] - 1]
\* half of the time the first point is as far from the first as from the last centroid
DoKMeans == \E p \in {RI({"d", "f"}, hist)}, n \in {R(2, 3)}, np \in {R(4, 7)}, k \in {R(1, 3)}, tie \in {R(0, 1)} : \E ps \in {Pts(np, n, 6, hist)}, s0 \in {Pts(k, n, 6, 1)} :
            \E s \in {IF tie = 1 /\ k > 1 THEN [s0 EXCEPT ![k] = VSub(VScale(2, ps[1]), s0[1])] ELSE s0} : \E ms \in {Ups(s)} :
            IF ~(Clear0(ps, ms) /\ ClearRun(ps, ms, Assign(ps, ms), 100)) THEN DoGauss ELSE
            \E r \in {KMeans(ps, ms)} : Record("kmeans", <<p, n, np, k>> \o ps \o s, <<T(p, 8, 3, Nx(r.shift, U * U * k)), T(p, 9, 4, MeansOf(r)), IdxOf(r)>>)
DoKRand == \E p \in {RI({"d", "f"}, hist)}, n \in {R(2, 3)}, np \in {R(4, 5)}, k \in {R(1, 2)} : \E ps \in {Pts(np, n, 6, hist)} :
           IF Cardinality({ps[i] : i \in 1..np}) < k \/ ~AllClear(ps, k) THEN DoGauss ELSE
           Record("kmeansr", <<p, n, np, k>> \o ps, <<[one |-> {<<T(p, 9, 4, MeansOf(r)), IdxOf(r)>> : r \in Outcomes(ps, k)}]>>)
DoGreedy == \E n \in {R(1, 6)} : \E k \in {R(0, n)}, l \in {Pts(n, 2, 9, hist)} : Record("greedy", <<n, k>> \o l, SubSeq(l, 1, k))
\* drawn seeds: as many distinct values of the list as asked for, or all of them
DoSeeds == \E n \in {R(2, 6)} : \E k \in {R(1, n)}, l \in {Pts(n, 2, 2, hist)} : \E c \in {Cardinality({l[i] : i \in 1..n})} : Record("seeds", <<n, k>> \o l, <<Min2(k, c), 1>>)
\* ---- expectation maximisation on groups 200 apart
Grp(n, i, h) == The({TLCEval([j \in 1..Len(l) |-> VAdd(l[j], [d \in 1..n |-> 200 * (i - 1)])]) : l \in {Pts(n + R(1, 3), n, 3, h)}})
RECURSIVE Cat(_, _)
Cat(gs, k) == IF k = 0 THEN <<>> ELSE Cat(gs, k - 1) \o gs[k]
RECURSIVE CatT(_, _, _, _, _, _)
\* log terms of the points of each group under the components that started in it
Comp(of, j) == SelectSeq(TLCEval([k \in 1..Len(of) |-> k]), LAMBDA k : of[k] = j)
CatT(gs, of, w, n, k, ga) == IF k = 0 THEN <<>> ELSE CatT(gs, of, w, n, k - 1, ga) \o
     The({LogTerms([i \in 1..Len(c) |-> ga[k]], [i \in 1..Len(c) |-> Len(gs[k]) * w[c[i]]], n * Sum([i \in 1..Len(c) |-> w[c[i]]]), gs[k]) : c \in {Comp(of, k)}})
DoEM == \E n \in {R(1, 2)}, G \in {R(1, 3)}, x \in {R(0, 2)} :
        \E gs \in {TLCEval([i \in 1..G |-> Grp(n, i, i)])}, of \in {TLCEval([i \in 1..(G + x) |-> IF i <= G THEN i ELSE R(0, G)])}, sh \in {TLCEval([i \in 0..G |-> IF i = 0 THEN [d \in 1..n |-> -700] ELSE VAdd([d \in 1..n |-> 200 * (i - 1)], Pt(n, 1, i))])},
           w \in {TLCEval([i \in 1..(G + x) |-> R(1, 4)])}, v \in {RI({4, 9}, hist)} :
        \E ga \in {TLCEval([i \in 1..G |-> Gauss(VSum(gs[i]), Len(gs[i]), Cov(gs[i]), Len(gs[i]) * Len(gs[i]))])}, all \in {Cat(gs, G)} : \E N \in {Len(all)}, W \in {Sum(w)} :
        IF \E i \in 1..G : Det(ga[i].c) = 0 THEN DoGauss ELSE
          Record("em", <<n, G + x, N>> \o all \o [k \in 1..(G + x) |-> <<Nx(w[k], W), Vx(sh[of[k]], 1), Mx(Diag([d \in 1..n |-> v]), 1)>>],
             <<Tol(6, Pr(<<Nx(1, N), Sm(CatT(gs, of, w, N, G, ga))>>))>>
             \o [k \in 1..(G + x) |-> IF of[k] = 0 THEN <<0, sh[0], Diag([d \in 1..n |-> v])>>
                  ELSE <<Tol(7, FinalW(gs, N, of, w, k)), Tol(8, Vx(ga[of[k]].m, ga[of[k]].dm)), Tol(6, Mx(ga[of[k]].c, ga[of[k]].dc))>>])
\* ---- weighted values order by weight alone
DoWeighted == \E a \in {R(-3, 3)}, b \in {R(-3, 3)} : \E l \in {Nums(R(1, 6), 5, hist)} :
              Record("weighted", <<a, b, Len(l)>> \o l, <<IF a < b THEN 1 ELSE 0, IF a > b THEN 1 ELSE 0, IF a = b THEN 1 ELSE 0, IF a # b THEN 1 ELSE 0, SortSeq(l, <), SortSeq(l, >)>>)
\* ---- random numbers
DoRandom == \E lo \in {R(-20, 20)}, w \in {R(1, 9)}, o \in {RI({"int", "double", "float", "vec", "quat", "normal"}, hist)} :
            \E r \in {[rng |-> <<lo, lo + w>>]} :
            Record("rand", <<o, lo, lo + w>>, CASE o = "vec" -> <<r, r, r>> [] o = "quat" -> <<Tol(6, 1)>> [] o = "normal" -> <<lo, lo, lo>> [] OTHER -> <<r>>)
GInit == GenStart /\ lin = [k \in Kinds |-> <<<<>>, <<>>>>] /\ rot = [k \in RKinds |-> <<Empty, Empty>>]
Pure == UNCHANGED <<lin, rot>>
Step == \E i \in {R(1, 34)} :
   CASE i <= 5 -> DoAdd [] i = 6 -> DoCopy [] i <= 10 -> DoGet [] i = 11 -> DoRot [] i <= 16 -> DoAddR [] i <= 20 -> DoGetR
     [] i <= 22 -> Pure /\ DoCorr [] i = 23 -> Pure /\ DoGauss [] i = 24 -> Pure /\ DoGaussW [] i = 25 -> Pure /\ DoGaussI [] i = 26 -> Pure /\ DoMahal
     [] i = 27 -> Pure /\ DoLik [] i <= 29 -> Pure /\ DoKMeans [] i = 30 -> Pure /\ DoKRand [] i = 31 -> Pure /\ DoEM
     [] i = 32 -> Pure /\ (IF R(1, 2) = 1 THEN DoGreedy ELSE DoSeeds) [] i = 33 -> Pure /\ DoWeighted [] OTHER -> Pure /\ DoRandom
GNext == IF More THEN Step ELSE Finish /\ UNCHANGED <<lin, rot>>
GenSpec == GInit /\ [][GNext]_<<hist, emitted, lin, rot>>
=============================================================================
