----------------------------- MODULE KalmanGen -----------------------------
EXTENDS Kalman, Gen
R(a, b) == RandomElement(a..b)
Gmat(h, m, n, k) == TLCEval([i \in 1..m |-> [j \in 1..n |-> R(-k, k)]])
Gvec(h, n, k) == TLCEval([i \in 1..n |-> R(-k, k)])
\* positive definite: M M^T + I, M a lower triangle
Gpd(h, n, k) == The({MAdd(MatMul(m, Trans(m)), Ident(n)) : m \in {TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j <= i THEN R(-k, k) ELSE 0]])}})
\* unimodular: product of a unit lower and a unit upper triangle, with its inverse
RECURSIVE Chain(_, _)
Elem(n, i, j, k) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 1 ELSE IF a = i /\ b = j THEN k ELSE 0]]
Chain(n, s) == IF s = <<>> THEN [a |-> Ident(n), b |-> Ident(n)]
   ELSE The({[a |-> MatMul(Elem(n, s[1][1], s[1][2], s[1][3]), t.a), b |-> MatMul(t.b, Elem(n, s[1][1], s[1][2], -s[1][3]))] : t \in {Chain(n, Tail(s))}})
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] # p[2]}
Guni(h, n) == The({Chain(n, s) : s \in {TLCEval([k \in 1..R(1, 3) |-> The({<<p[1], p[2], R(-1, 1)>> : p \in {RandomElement(Pairs(n))}})])}})
Fit(r) == MaxAbs(Flat(r.l)) <= 120 /\ MaxAbs(r.e) <= 1500
MxR(v, d) == [v |-> Flat(v), d |-> d]
Ex(r) == <<Tol(7, [v |-> Mean(r).v, d |-> Mean(r).d]), Tol(7, MxR(Cov(r).v, Cov(r).d))>>
Inv(w) == MxR(AdjN(w), Det(w))
DoSet == \E i \in {R(1, NR)}, n \in {R(2, 3)} : \E l \in {Gpd(hist, n, 2)}, e \in {Gvec(hist, n, 20)} : \E r \in {Est(l, e)} :
   reg' = [reg EXCEPT ![i] = r] /\ Record("set", <<i, n, [v |-> Mean(r).v, d |-> Mean(r).d], MxR(Cov(r).v, Cov(r).d)>>, Ex(r))
\* measurement of a linear function of a part of the state; f: which entry point
DoMeas == \E i \in {R(1, NR)} : \E n \in {N(reg[i])} : \E b \in {R(1, n)} : \E k \in {R(1, n - b + 1)}, m \in {R(1, 3)}, f \in {R(0, 1)} :
   \E h \in {Gmat(hist, m, k, 2)}, w \in {Gpd(hist, m, 1)}, z \in {Gvec(hist, m, 9)} : \E r \in {Update(reg[i], h, b, w, z)} :
   IF Fit(r) THEN reg' = [reg EXCEPT ![i] = r] /\ Record("meas", <<i, m, b - 1, b - 1 + k, [v |-> Flat(h), d |-> 1], [v |-> z, d |-> 1], Inv(w)>>, Ex(r)) ELSE DoSet
DoIdent == \E i \in {R(1, NR)} : \E n \in {N(reg[i])} : \E b \in {R(1, n)} : \E k \in {R(1, n - b + 1)} :
   \E w \in {Gpd(hist, k, 1)}, z \in {Gvec(hist, k, 9)} : \E r \in {Update(reg[i], Ident(k), b, w, z)} :
   IF Fit(r) THEN reg' = [reg EXCEPT ![i] = r] /\ Record("ident", <<i, k, b - 1, b - 1 + k, [v |-> z, d |-> 1], Inv(w)>>, Ex(r)) ELSE DoSet
\* affine map of the whole state
DoMap == \E i \in {R(1, NR)} : \E n \in {N(reg[i])} : \E u \in {Guni(hist, n)}, c \in {Gvec(hist, n, 3)} : \E r \in {Affine(reg[i], u.b, c)} :
   IF Fit(r) THEN reg' = [reg EXCEPT ![i] = r] /\ Record("map", <<i, [v |-> Flat(u.a), d |-> 1], [v |-> c, d |-> 1]>>, Ex(r)) ELSE DoSet
\* map of a sub-range of the state onto itself
Emb(u, n, b) == [i \in 1..n |-> [j \in 1..n |-> IF i >= b /\ i < b + Len(u) /\ j >= b /\ j < b + Len(u) THEN u[i - b + 1][j - b + 1] ELSE IF i = j THEN 1 ELSE 0]]
DoPart == \E i \in {R(1, NR)} : \E n \in {N(reg[i])} : \E b \in {R(1, n - 1)} : \E k \in {R(2, n - b + 1)} : \E u \in {Guni(hist, k)}, c \in {Gvec(hist, k, 3)} :
   \E r \in {Affine(reg[i], TLCEval(Emb(u.b, n, b)), [j \in 1..n |-> IF j >= b /\ j < b + k THEN c[j - b + 1] ELSE 0])} :
   IF Fit(r) THEN reg' = [reg EXCEPT ![i] = r] /\ Record("part", <<i, b - 1, b - 1 + k, b - 1, b - 1 + k, [v |-> Flat(u.a), d |-> 1], [v |-> c, d |-> 1]>>, Ex(r)) ELSE DoSet
\* any sub-range replaced by a function of any other (the result may be singular: observed, not kept)
OutMat(a, n, ob, ib) == [i \in 1..n |-> [j \in 1..n |-> IF i >= ob /\ i < ob + Len(a) THEN (IF j >= ib /\ j < ib + Len(a[1]) THEN a[i - ob + 1][j - ib + 1] ELSE 0) ELSE IF i = j THEN 1 ELSE 0]]
Obs(r, a, c) == LET m == Mean(r) s == Cov(r) IN
   <<Tol(7, [v |-> VAdd(MatVec(a, m.v), VScale(m.d, c)), d |-> m.d]), Tol(7, MxR(MatMul(a, MatMul(s.v, Trans(a))), s.d))>>
DoRange == \E i \in {R(1, NR)} : \E n \in {N(reg[i])} : \E ob \in {R(1, n)}, ib \in {R(1, n)} : \E ok \in {R(1, n - ob + 1)}, ik \in {R(1, n - ib + 1)} :
   \E a \in {Gmat(hist, ok, ik, 2)}, c \in {Gvec(hist, ok, 3)} :
   UNCHANGED reg /\ Record("range", <<i, ob - 1, ob - 1 + ok, ib - 1, ib - 1 + ik, [v |-> Flat(a), d |-> 1], [v |-> c, d |-> 1]>>,
      Obs(reg[i], TLCEval(OutMat(a, n, ob, ib)), [j \in 1..n |-> IF j >= ob /\ j < ob + ok THEN c[j - ob + 1] ELSE 0]))
DoFun == \E i \in {R(1, NR)} : \E n \in {N(reg[i])} : \E m \in {R(1, 4)} : \E a \in {Gmat(hist, m, n, 3)}, c \in {Gvec(hist, m, 5)} :
   UNCHANGED reg /\ Record("fun", <<i, m, [v |-> Flat(a), d |-> 1], [v |-> c, d |-> 1]>>, Obs(reg[i], a, c))
\* a function of two independent estimates
DoBin == \E i \in {R(1, NR)}, j \in {R(1, NR)}, m \in {R(1, 3)} : \E p \in {N(reg[i])}, q \in {N(reg[j])} : \E a \in {Gmat(hist, m, p, 2)}, b \in {Gmat(hist, m, q, 2)} :
   LET x == Obs(reg[i], a, Zero(m)) y == Obs(reg[j], b, Zero(m))
       A(u, v) == [v |-> VAdd(VScale(v.d, u.v), VScale(u.d, v.v)), d |-> u.d * v.d] IN
   IF i # j /\ Det(reg[i].l) <= 1000 /\ Det(reg[j].l) <= 1000 /\ MaxAbs(x[1].x.v) < 500000 /\ MaxAbs(y[1].x.v) < 500000 /\ MaxAbs(x[2].x.v) < 500000 /\ MaxAbs(y[2].x.v) < 500000
   THEN UNCHANGED reg /\ Record("bin", <<i, j, m, [v |-> Flat(a), d |-> 1], [v |-> Flat(b), d |-> 1]>>, <<Tol(7, A(x[1].x, y[1].x)), Tol(7, A(x[2].x, y[2].x))>>)
   ELSE DoSet
\* backward propagation: the covariance of parameters p from that of measurements J p is (J^T W J)^-1
\* kind 0: W = identity / s, kind 1: diagonal, kind 2: full
DoBack == \E n \in {R(2, 3)} : \E m \in {R(n, 5)}, kind \in {R(0, 2)} : \E j \in {Gmat(hist, m, n, 3)}, s \in {R(1, 9)}, wd \in {TLCEval([k \in 1..m |-> R(1, 5)])} :
   \E w \in {IF kind = 0 THEN Ident(m) ELSE IF kind = 1 THEN Diag(wd) ELSE IF m <= 4 THEN Gpd(hist, m, 1) ELSE Ident(m)} :
   \E l \in {MatMul(Trans(j), MatMul(w, j))} :
   IF Det(l) > 0 /\ MaxAbs(Flat(l)) <= 300 /\ MaxAbs(Flat(AdjN(l))) <= 200 * Det(l)
   THEN UNCHANGED reg /\ Record("back", <<kind, n, m, [v |-> Flat(j), d |-> 1], s, IF kind = 1 THEN [v |-> [k \in 1..m |-> 3600 \div (wd[k] * 60)], d |-> 60] ELSE IF kind = 2 THEN Inv(w) ELSE 0>>,
          <<Tol(7, MxR(IF kind = 0 THEN MScale(s, AdjN(l)) ELSE AdjN(l), Det(l)))>>)
   ELSE DoSet
Do == \E c \in {R(1, 18)} :
   CASE c <= 3 -> DoSet [] c <= 7 -> DoMeas [] c <= 9 -> DoIdent [] c = 10 -> DoMap [] c <= 12 -> DoPart [] c <= 14 -> DoRange [] c = 15 -> DoFun [] c = 16 -> DoBin [] OTHER -> DoBack
GenNext == \/ More /\ Do
           \/ ~More /\ Finish /\ UNCHANGED vars
GenInit == reg = [i \in Regs |-> Est(Ident(2), <<0, 0>>)]
GenSpec == GenInit /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
