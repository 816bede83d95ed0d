----------------------------- MODULE HandEyeGen -----------------------------
EXTENDS HandEye, Gen
R(a, b) == RandomElement(a..b)
Gq(h) == LET c == R(1, 3) IN IF c = 1 THEN RandomElement(Octa) ELSE IF c = 2 THEN <<R(-2, 2), R(-2, 2), R(-2, 2), R(1, 2)>> ELSE <<R(-1, 1), R(-1, 1), R(-1, 1), R(2, 4)>>
Gv(h) == <<R(-5, 5), R(-5, 5), R(-5, 5)>>
N == Len(eye)
Sg(s, q) == [qs |-> IF s = 1 THEN VNeg(q) ELSE q]
Fits(p) == PFits(p, 1500)
DoNew == \E a \in {Pose(Prim(Gq(hist)), IF R(1, 6) = 1 THEN <<0, 0, 0>> ELSE Gv(hist), 1)}, b \in {Pose(Prim(Gq(hist)), Gv(hist), 1)} :
   Fresh(IF a.q[4] = 0 THEN Pose(QId, a.t, 1) ELSE a, b) /\ Record("new", <<>>, <<>>)
DoAdd == \E e \in {Pose(Prim(Gq(hist)), Gv(hist), 1)}, s1 \in {R(0, 1)}, s2 \in {R(0, 1)} :
   IF N >= 9 THEN DoNew ELSE \E h \in {Hand(e)} : IF ~Fits(h) THEN DoNew
   ELSE Add(e) /\ Record("add", <<Sg(s1, h.q), Vx(h.t, h.d), Sg(s2, e.q), Vx(e.t, e.d)>>, <<>>)
Xx(l) == <<Tol(l, Qx(x.q)), Tol(l, Vx(x.t, x.d))>>
DoTsai == \E all \in {RandomElement({TRUE, FALSE})}, k \in {RandomElement({"pose", "mat", "matf"})} :
   IF N <= 2 THEN UNCHANGED vars /\ Record("tsai", <<k, IF all THEN 1 ELSE 0>>, <<Qx(QId), Vx(<<0, 0, 0>>, 1)>>)
   ELSE IF Solvable(all) THEN UNCHANGED vars /\ Record("tsai", <<k, IF all THEN 1 ELSE 0>>, Xx(IF k = "matf" THEN 2 ELSE 6))
   ELSE DoAdd
DoBad == \E k \in {RandomElement({"pose", "mat"})} : IF N >= 1 THEN UNCHANGED vars /\ Record("tsaibad", <<k>>, <<[exc |-> "ubitrack"]>>) ELSE DoAdd
DoDual == \E k \in {RandomElement({"poses", "relative"})} : IF Solvable(TRUE) THEN UNCHANGED vars /\ Record("dual", <<k>>, <<1>> \o Xx(5)) ELSE DoAdd
\* motions between two moments, as dual quaternions
DoRel == \E d \in {R(0, 1)} : IF N < 3 THEN DoAdd ELSE \E i \in {R(1, N - 1)} : \E j \in {R(i + 1, N)} :
   LET p == IF d = 1 THEN PMul(PInv(eye[i]), eye[j]) ELSE PMul(eye[i], PInv(eye[j])) IN
   IF Fits(p) THEN UNCHANGED vars /\ Record("rel", <<d, i, j>>, <<(N * (N - 1)) \div 2, Qx(p.q), Vx(p.t, p.d)>>) ELSE DoAdd
DoOnline == \E k \in {RandomElement({"online", "kalman"})} : IF Solvable(TRUE) THEN UNCHANGED vars /\ Record(k, <<>>, <<Tol(2, Qx(x.q))>>) ELSE DoAdd
Do == \E c \in {R(1, 16)} : CASE c = 1 -> DoNew [] c <= 8 -> DoAdd [] c <= 10 -> DoTsai [] c = 11 -> DoBad [] c <= 13 -> DoDual [] c = 14 -> DoRel [] OTHER -> DoOnline
GenNext == \/ More /\ (IF hist = <<>> THEN DoNew ELSE Do)
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == Init /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
