------------------------------- MODULE Stats -------------------------------
(* Averages, correlation, Gaussians, k-means and expectation maximisation.  *)
(* All results are exact functions of the samples; transcendental ones are  *)
(* expressions over exact numbers.                                          *)
EXTENDS Lin
The(S) == CHOOSE a \in S : TRUE
\* ---- moments of a list of integer vectors: n^2 covariance = n sum(x x') - sum(x) sum(x)'
RECURSIVE VSumTo(_, _)
VSumTo(l, k) == IF k = 1 THEN l[1] ELSE VAdd(VSumTo(l, k - 1), l[k])
VSum(l) == VSumTo(l, Len(l))
MSum(l) == The({LET n == Len(l[1]) IN TLCEval([i \in 1..n |-> [j \in 1..n |-> Sum([k \in 1..Len(l) |-> l[k][i] * l[k][j]])]]) : x \in {0}})
Cov(l) == The({MAdd(MScale(Len(l), MSum(l)), MScale(-1, Outer(s, s))) : s \in {VSum(l)}})
\* with integer weights: (sum w)^2 covariance
WSum(l, w) == VSum(TLCEval([k \in 1..Len(l) |-> VScale(w[k], l[k])]))
WCov(l, w) == The({LET n == Len(l[1]) IN MAdd(MScale(Sum(w), TLCEval([i \in 1..n |-> [j \in 1..n |-> Sum([k \in 1..Len(l) |-> w[k] * l[k][i] * l[k][j]])]])), MScale(-1, Outer(s, s))) : s \in {WSum(l, w)}})
Sel(l, idx, c) == SelectSeq(TLCEval([k \in 1..Len(l) |-> <<idx[k], l[k]>>]), LAMBDA x : x[1] = c)
Pick2(s) == TLCEval([k \in 1..Len(s) |-> s[k][2]])
\* ---- correlation of two lists of numbers: numerator and the two variances (times n)
CorN(a, b) == Len(a) * Dot(a, b) - Sum(a) * Sum(b)
Var1(a) == Len(a) * Norm2(a) - Sum(a) * Sum(a)
\* ---- k-means in units of 1/420 (centroids of up to seven points are whole)
U == 420
D2(a, b) == Norm2(VSub(a, b))
Dists(p, ms) == TLCEval([k \in 1..Len(ms) |-> D2(VScale(U, p), ms[k])])
RECURSIVE ArgMin(_, _, _)
ArgMin(s, k, b) == IF k > Len(s) THEN b ELSE ArgMin(s, k + 1, IF s[k] < s[b] THEN k ELSE b)
Nearest(p, ms) == The({ArgMin(s, 1, 1) : s \in {Dists(p, ms)}})
Assign(ps, ms) == TLCEval([i \in 1..Len(ps) |-> Nearest(ps[i], ms)])
Members(ps, idx, k) == Pick2(Sel(ps, idx, k))
Centroid(ps, idx, k, old) == The({IF c = <<>> THEN old ELSE VScale(U \div Len(c), VSum(c)) : c \in {Members(ps, idx, k)}})
Centroids(ps, idx, ms) == TLCEval([k \in 1..Len(ms) |-> Centroid(ps, idx, k, ms[k])])
Shift(ms, mt) == Sum([k \in 1..Len(ms) |-> D2(ms[k], mt[k])])
\* done when the mean squared shift is below 10^-4
Done(s, k) == s < 1000 /\ 100 * s < 1764 * k
RECURSIVE Lloyd(_, _, _, _)
Lloyd(ps, ms, idx, n) == The({The({IF n = 1 \/ Done(s, Len(ms)) THEN [m |-> mt, idx |-> Assign(ps, mt), shift |-> s] ELSE Lloyd(ps, mt, Assign(ps, mt), n - 1)
                                   : s \in {Shift(ms, mt)}}) : mt \in {Centroids(ps, idx, ms)}})
KMeans(ps, ms) == Lloyd(ps, ms, Assign(ps, ms), 100)
\* no decision is close: two distances that are not equal by construction differ clearly, and so does the shift from its threshold
Clear(ps, ms) == \A i \in 1..Len(ps) : \A s \in {Dists(ps[i], ms)} : \A k \in {Nearest(ps[i], ms)} : \A j \in 1..Len(ms) : j = k \/ s[j] - s[k] > 500
\* the same for given centroids of whole components: there distances may be equal, and the first of the nearest counts
Clear0(ps, ms) == \A i \in 1..Len(ps) : \A s \in {Dists(ps[i], ms)} : \A k \in {Nearest(ps[i], ms)} : \A j \in 1..Len(ms) : s[j] = s[k] \/ s[j] - s[k] > 500
RECURSIVE ClearRun(_, _, _, _)
ClearRun(ps, ms, idx, n) == \A mt \in {Centroids(ps, idx, ms)} : \A s \in {Shift(ms, mt)} :
       Clear(ps, mt) /\ ~(s < 1000 /\ 100 * s > 1600 * Len(ms) /\ 100 * s < 1900 * Len(ms)) /\ (n = 1 \/ Done(s, Len(ms)) \/ ClearRun(ps, mt, Assign(ps, mt), n - 1))
\* seeds: any selection of distinct values
RECURSIVE Seeds(_, _)
Seeds(S, k) == IF k = 0 THEN {<<>>} ELSE UNION {{Append(s, x) : x \in {y \in S : \A i \in 1..Len(s) : s[i] # y}} : s \in Seeds(S, k - 1)}
Ups(s) == TLCEval([i \in 1..Len(s) |-> VScale(U, s[i])])
Outcomes(ps, k) == {KMeans(ps, Ups(s)) : s \in Seeds({ps[i] : i \in 1..Len(ps)}, k)}
AllClear(ps, k) == \A s \in Seeds({ps[i] : i \in 1..Len(ps)}, k) : \A ms \in {Ups(s)} : ClearRun(ps, ms, Assign(ps, ms), 100)
\* ---- Gaussians: mean vm / dm, covariance vc / dc
Gauss(m, dm, c, dc) == TLCEval([m |-> m, dm |-> dm, c |-> c, dc |-> dc])
Trace(c) == Sum([i \in 1..Len(c) |-> c[i][i]])
\* squared Mahalanobis distance of x
Mah(g, x) == The({Pr(<<Sm(TLCEval([k \in 1..(Len(d) * Len(d)) |-> Pr(<<d[((k - 1) \div Len(d)) + 1], d[((k - 1) % Len(d)) + 1], a[((k - 1) \div Len(d)) + 1][((k - 1) % Len(d)) + 1]>>)])),
                       g.dc, Rcp(g.dm), Rcp(g.dm), Rcp(Det(g.c))>>) : <<d, a>> \in {<<VSub(VScale(g.dm, x), g.m), AdjN(g.c)>>}})
Two == Fn("prod", <<2, Fn("pi", <<>>)>>)
DetX(g) == Fn("prod", <<Det(g.c), Rcp(Pow(g.dc, Len(g.c)))>>)
\* the density
Density(g, x) == Pr(<<Fn("exp", <<Pr(<<Nx(-1, 2), Mah(g, x)>>)>>), Rcp(Fn("sqrt", <<Pr(TLCEval([i \in 1..Len(g.c) |-> Two]) \o <<DetX(g)>>)>>))>>)
\* mean log likelihood of lists of points, each under its own mixture (components far from a point add nothing to it)
Terms(ws, gs, dw, x) == Fn("log", <<Sm(TLCEval([k \in 1..Len(gs) |-> Pr(<<Nx(ws[k], dw), Density(gs[k], x)>>)]))>>)
LogTerms(gs, ws, dw, xs) == TLCEval([i \in 1..Len(xs) |-> Terms(ws, gs, dw, xs[i])])
LogLik(gs, ws, dw, xs) == Pr(<<Nx(1, Len(xs)), Sm(LogTerms(gs, ws, dw, xs))>>)
\* ---- averages of poses: rotations q e with unit e = v / D symmetric around one, translations t
\* mean of x x' with x = (t - mean of t, imaginary part of e); n samples
PoseCov(ts, vs, D) == The({LET n == Len(ts) IN
      [i \in 1..6 |-> [j \in 1..6 |->
        CASE i < 4 /\ j < 4 -> Nx(n * Sum([k \in 1..n |-> ts[k][i] * ts[k][j]]) - s[i] * s[j], n * n)
          [] i < 4 /\ j > 3 -> Nx(Sum([k \in 1..n |-> (n * ts[k][i] - s[i]) * vs[k][j - 3]]), n * n * D)
          [] i > 3 /\ j < 4 -> Nx(Sum([k \in 1..n |-> (n * ts[k][j] - s[j]) * vs[k][i - 3]]), n * n * D)
          [] OTHER -> Nx(Sum([k \in 1..n |-> vs[k][i - 3] * vs[k][j - 3]]), n * D * D)]] : s \in {VSum(ts)}})
\* ---- mixtures of well separated groups: what expectation maximisation finds.
\* groups: lists of points; of: the group each component starts in (0: none); w: starting weights
Share(of, w, k) == Sum([j \in 1..Len(of) |-> IF of[j] = of[k] THEN w[j] ELSE 0])
\* weight of component k: the share of its group among the points, divided among the components of the group by their starting weights
FinalW(groups, n, of, w, k) == IF of[k] = 0 THEN Nx(0, 1) ELSE Nx(Len(groups[of[k]]) * w[k], n * Share(of, w, k))
=============================================================================
