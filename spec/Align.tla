------------------------------- MODULE Align -------------------------------
(* Registration of two point sets: a list of correspondences (a, b) that    *)
(* are explained by one rigid motion (and scale), a = s R b + t + e. Errors  *)
(* come in opposite pairs on the same point, so that the motion stays the   *)
(* least-squares solution exactly (checked below against all rotations of   *)
(* the cube); outliers are marked.                                          *)
EXTENDS Lin
CONSTANTS MaxPts
VARIABLES tr, sc, cor
vars == <<tr, sc, cor>>
\* a correspondence: point b, error e (integer vectors), outlier flag
C(b, e, o) == [b |-> b, e |-> e, o |-> o]
\* the point a with its denominator
Over(x, c) == <<VAdd(VScale(sc[1], x[1]), VScale(sc[2] * x[2], c.e)), x[2] * sc[2]>>
Img(c) == Over(PApply(Pose(tr.q, VScale(sc[2], tr.t), sc[1] * tr.d), c.b, 1), c)
Bs == [i \in 1..Len(cor) |-> cor[i].b]
Spread(s) == \E i, j, k \in 1..Len(s) : i < j /\ j < k /\ ~IsZero(Cross(VSub(s[j], s[i]), VSub(s[k], s[i])))
WideSpread(s, m) == \E i, j, k \in 1..Len(s) : i < j /\ j < k /\ Norm2(Cross(VSub(s[j], s[i]), VSub(s[k], s[i]))) >= m
Clean == \A i \in 1..Len(cor) : ~cor[i].o
Exact == \A i \in 1..Len(cor) : IsZero(cor[i].e)
Solvable == Len(cor) >= 3 /\ Clean /\ Spread(Bs)
Init == tr = PId /\ sc = <<1, 1>> /\ cor = <<>>
Fresh(p, s) == tr' = p /\ sc' = s /\ cor' = <<>>
Add(b) == cor' = Append(cor, C(b, <<0, 0, 0>>, FALSE)) /\ UNCHANGED <<tr, sc>>
Pair(b, e) == cor' = cor \o <<C(b, e, FALSE), C(b, VNeg(e), FALSE)>> /\ UNCHANGED <<tr, sc>>
Outlier(b, e) == cor' = Append(cor, C(b, e, TRUE)) /\ UNCHANGED <<tr, sc>>
Pt3 == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 1, 1>>}
Er == {<<0, 0, 1>>, <<1, -1, 0>>}
Next == \/ Len(cor) = 0 /\ \E q \in {<<1, 1, 1, 1>>, <<1, 0, 0, 1>>, <<0, 1, -1, 0>>}, s \in {<<2, 1>>} : Fresh(Pose(q, <<1, 0, 2>>, 1), s)
        \/ Len(cor) < MaxPts /\ \E b \in Pt3 : Add(b)
        \/ Len(cor) + 1 < MaxPts /\ \E b \in Pt3, e \in Er : Pair(b, e)
Spec == Init /\ [][Next]_vars
\* what a rotation q explains of the centred points (n^2 times too large)
N == Len(cor)
As == TLCEval([i \in 1..N |-> Img(cor[i])[1]])
SumV(v) == TLCEval(<<Sum([i \in 1..N |-> v[i][1]]), Sum([i \in 1..N |-> v[i][2]]), Sum([i \in 1..N |-> v[i][3]])>>)
Centred(v) == {[i \in 1..N |-> VSub(VScale(N, v[i]), m)] : m \in {SumV(v)}}
Score(q, a, b) == Sum([i \in 1..N |-> Dot(a[i], MatVec(RotM(q), b[i]))]) * (4 \div QN(q))
Half == {q \in Octa : Dot(q, <<27, 9, 3, 1>>) > 0}
Optimal == Solvable => \A aa \in {As} : \A a \in Centred(aa), b \in Centred(Bs) : \A s0 \in {Score(tr.q, a, b)} : \A q \in Half : SameRot(q, tr.q) \/ Score(q, a, b) < s0
=============================================================================
