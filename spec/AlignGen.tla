------------------------------ MODULE AlignGen ------------------------------
EXTENDS Align, Gen
R(a, b) == RandomElement(a..b)
Gq(h) == LET c == R(1, 4) IN
   IF c = 1 THEN RandomElement(Octa) ELSE IF c = 2 THEN <<R(-3, 3), R(-3, 3), R(-3, 3), R(1, 3)>>
   ELSE IF c = 3 THEN <<R(-3, 3), R(-3, 3), R(1, 3), 0>> ELSE <<R(-1, 1), R(-1, 1), R(-1, 1), R(8, 20)>>
Gv(h) == <<R(-9, 9), R(-9, 9), R(-9, 9)>>
Pyth == {<<1, 2, 2>>, <<-2, 3, 6>>, <<0, 3, -4>>, <<1, 0, 0>>, <<0, 0, -2>>, <<4, -4, 7>>, <<2, 1, -2>>}
Len2(e) == CHOOSE k \in 0..20 : k * k = Norm2(e)
DoNew == \E q \in {Gq(hist)}, t \in {Gv(hist)}, d \in {R(1, 3)}, s \in {RandomElement({<<1, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<5, 3>>})} :
   Fresh(Pose(Prim(q), t, d), s) /\ Record("new", <<>>, <<>>)
Sent(k) == LET c == cor'[k] x == Img(c) IN <<Vx(x[1], x[2]), Vx(c.b, 1)>>
DoAdd == \E b \in {Gv(hist)} : IF Len(cor) >= 12 THEN DoNew ELSE Add(b) /\ Record("add", <<1>> \o Sent(Len(cor) + 1), <<>>)
DoPair == \E b \in {Gv(hist)}, e \in {RandomElement(Pyth)} : IF Len(cor) >= 11 THEN DoNew ELSE Pair(b, e) /\ Record("add", <<2>> \o Sent(Len(cor) + 1) \o Sent(Len(cor) + 2), <<>>)
DoOut == \E b \in {Gv(hist)}, e \in {<<R(-99, 99), R(-99, 99), RandomElement({-150, 120, 77, -93})>>} : IF Len(cor) >= 12 THEN DoNew ELSE Outlier(b, e) /\ Record("add", <<1>> \o Sent(Len(cor) + 1), <<>>)
Unit == sc = <<1, 1>>
Tx == Vx(tr.t, tr.d)
DoEst == \E o \in {RandomElement({"pose", "posef", "abs", "rotm", "rotq", "rotmf", "rotqf"})} :
   LET fl == o \in {"posef", "rotmf", "rotqf"} l == IF fl THEN 2 ELSE 6 IN
   IF Solvable /\ (fl => WideSpread(Bs, 400)) /\ (Unit \/ o \notin {"pose", "posef", "abs"}) THEN UNCHANGED vars /\ Record(o, <<>>,
        IF o \in {"pose", "posef", "abs"} THEN <<Tol(l, Qx(tr.q)), Tol(l, Tx)>> ELSE IF o \in {"rotm", "rotmf"} THEN <<Tol(l, Mx(RotM(tr.q), QN(tr.q)))>> ELSE <<Tol(l, Qx(tr.q))>>)
   ELSE DoAdd
DoScale == IF Solvable /\ Exact THEN UNCHANGED vars /\ Record("scale", <<>>, <<Nx(sc[1], sc[2]), Tol(4, Nx(sc[1], sc[2]))>>) ELSE DoAdd
\* mean distance over the three coordinates
DoRes == IF Clean /\ Unit /\ Len(cor) >= 1 THEN UNCHANGED vars /\ Record("residual", <<Qx(tr.q), Tx>>, <<Nx(Sum([i \in 1..N |-> Len2(cor[i].e)]), 3 * N)>>) ELSE DoPair
\* optimisation from a guess nearby
DoOpt == \E u \in {<<R(-1, 1), R(-1, 1), R(-1, 1), R(6, 9)>>}, dt \in {<<R(-2, 2), R(-2, 2), R(-2, 2)>>}, sg \in {RandomElement({1, -1})} :
   IF Solvable /\ Unit /\ WideSpread(Bs, 100) THEN UNCHANGED vars /\ Record("opt", <<[qs |-> VScale(sg, QMul(tr.q, u))], Vx(VAdd(tr.t, VScale(tr.d, dt)), tr.d)>>, <<Tol(4, Qx(tr.q)), Tol(3, Tx)>>) ELSE DoAdd
Inl == Cardinality({i \in 1..N : ~cor[i].o})
InlPts == SelectSeq(cor, LAMBDA c : ~c.o)
InB == [i \in 1..Len(InlPts) |-> InlPts[i].b]
ManySpread == \A i \in 1..Len(InB) : Spread(SelectSeq(InB, LAMBDA x : x # InB[i]))
\* robust: with or without the required number of points in agreement
DoRansac == \E o \in {RandomElement({"ransac", "ransacf", "ransacold"})}, ask \in {RandomElement({0, 0, 1})} :
   IF Unit /\ (\A i \in 1..N : cor[i].o \/ IsZero(cor[i].e)) /\ Inl >= 4 /\ Inl >= 2 * (N - Inl) /\ ManySpread /\ WideSpread(InB, 400) /\ Inl + ask <= N
   THEN UNCHANGED vars /\ Record(o, <<Inl + ask, 3>>, IF ask = 1 THEN <<0>> ELSE
        (IF o = "ransacold" THEN <<Inl>> \o [i \in 1..N |-> IF cor[i].o THEN 0 ELSE 1] ELSE <<1>>) \o (IF o = "ransacf" THEN <<Tol(2, Qx(tr.q)), Tol(2, Tx)>> ELSE <<Tol(6, Qx(tr.q)), Tol(6, Tx)>>))
   ELSE IF N >= 6 /\ Inl < N THEN DoNew ELSE IF Unit /\ Inl >= 6 /\ (\A i \in 1..N : cor[i].o \/ IsZero(cor[i].e)) THEN DoOut ELSE DoAdd
\* covariance of the estimate for points balanced around the origin
Sq(v) == [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN Norm2(v) ELSE 0) - v[i] * v[j]]]
DoCov == \E q \in {Gq(hist)}, t \in {Gv(hist)}, b \in {[i \in 1..3 |-> <<R(-2, 2), R(-2, 2), R(-2, 2)>>]}, e \in {[i \in 1..3 |-> RandomElement(Pyth)]} :
   LET p == Pose(Prim(q), t, 1) n == 6
       s == MScale(2, MAdd(MAdd(Sq(b[1]), Sq(b[2])), Sq(b[3])))
       dt == Det3(s) er == 2 * (Len2(e[1]) + Len2(e[2]) + Len2(e[3]))
       a == Adj3(s)
       P(i, sg) == LET x == PApply(p, VScale(sg, b[i]), 1) IN <<Vx(VAdd(x[1], VScale(x[2], e[i])), x[2]), Vx(VScale(sg, b[i]), 1)>>
   IN IF dt = 0 \/ ~(\E i, j \in 1..3 : ~IsZero(Cross(b[i], b[j]))) THEN DoAdd
      ELSE UNCHANGED vars /\ Record("cov", <<Qx(p.q), Vx(t, 1), n>> \o P(1, 1) \o P(1, -1) \o P(2, 1) \o P(2, -1) \o P(3, 1) \o P(3, -1),
           [k \in 1..36 |-> LET i == (k - 1) \div 6 j == (k - 1) % 6 IN
              IF i < 3 /\ j < 3 THEN (IF i = j THEN Nx(er, 3 * n * n) ELSE Nx(0, 1))
              ELSE IF i >= 3 /\ j >= 3 THEN Nx(er * a[i - 2][j - 2], 3 * n * 4 * dt) ELSE Nx(0, 1)])
Do == \E c \in {R(1, 22)} : CASE c = 1 -> DoNew [] c <= 7 -> DoAdd [] c <= 9 -> DoPair [] c <= 14 -> DoEst [] c = 15 -> DoScale [] c = 16 -> DoRes [] c = 17 -> DoOpt [] c <= 21 -> DoRansac [] OTHER -> DoCov
GenNext == \/ More /\ (IF hist = <<>> THEN DoNew ELSE Do)
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == Init /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
