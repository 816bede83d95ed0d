------------------------------- MODULE MCStats ------------------------------
(* Exhaustive checks of Stats.tla on small lists: moments against their     *)
(* definition, k-means against its invariants, seeds, and correlation.      *)
EXTENDS Stats
CONSTANT B, N
VARIABLES ps, ms, idx
vars == <<ps, ms, idx>>
P == (0..B) \X (0..B)
Vals == [1..N -> P]
Init == \E f \in Vals : \E a \in P, b \in P : ps = f /\ ms = Ups(<<a, b>>) /\ idx = Assign(f, Ups(<<a, b>>))
\* one round
Next == ms' = Centroids(ps, idx, ms) /\ idx' = Assign(ps, ms') /\ UNCHANGED ps
Spec == Init /\ [][Next]_vars
Cost(m, i) == Sum([k \in 1..N |-> D2(VScale(U, ps[k]), m[i[k]])])
\* no round raises the cost, neither by moving the centroids nor by assigning anew; a fixed point is reached
Descends == [][Cost(ms', idx) <= Cost(ms, idx) /\ Cost(ms', idx') <= Cost(ms', idx)]_vars
Settles == \A r \in {KMeans(ps, ms)} : r.shift = 0 /\ Centroids(ps, r.idx, r.m) = r.m /\ Assign(ps, r.m) = r.idx
\* every point is with one of its nearest centroids; a centroid of members is their mean, inside their bounding box
Near == \A k \in 1..N, j \in 1..2 : D2(VScale(U, ps[k]), ms[idx[k]]) <= D2(VScale(U, ps[k]), ms[j])
Inside == \A j \in 1..2 : \A c \in {Centroids(ps, idx, ms)[j]} : Members(ps, idx, j) # <<>> =>
            \A d \in 1..2 : (\E k \in 1..N : idx[k] = j /\ U * ps[k][d] <= c[d]) /\ (\E k \in 1..N : idx[k] = j /\ U * ps[k][d] >= c[d])
L == TLCEval([k \in 1..N |-> ps[k]])
Moments == \A c \in {Cov(L)} : c = Trans(c) /\ c[1][1] >= 0 /\ c[2][2] >= 0 /\ Det(c) >= 0
             /\ MScale(N, c) = MSum(TLCEval([k \in 1..N |-> VSub(VScale(N, ps[k]), VSum(L))]))
Weights == WCov(L, TLCEval([k \in 1..N |-> 1])) = Cov(L) /\ WSum(L, TLCEval([k \in 1..N |-> 1])) = VSum(L)
Xs == TLCEval([k \in 1..N |-> ps[k][1]])
Ys == TLCEval([k \in 1..N |-> ps[k][2]])
Cors == CorN(Xs, Ys) * CorN(Xs, Ys) <= Var1(Xs) * Var1(Ys) /\ CorN(Xs, Xs) = Var1(Xs) /\ CorN(Xs, Ys) = CorN(Ys, Xs)
        /\ CorN(Xs, Ys) = Cov(L)[1][2] /\ Var1(Xs) = Cov(L)[1][1]
SeedsOK == \A s \in Seeds({ps[i] : i \in 1..N}, 2) : s[1] # s[2]
Inv == Near /\ Inside /\ Moments /\ Weights /\ Cors /\ SeedsOK /\ Settles
=============================================================================
