------------------------------- MODULE TipGen -------------------------------
EXTENDS Tip, Gen
R(a, b) == RandomElement(a..b)
Gq(h) == LET c == R(1, 3) IN
   IF c = 1 THEN RandomElement(Octa) ELSE IF c = 2 THEN <<R(-3, 3), R(-3, 3), R(-3, 3), R(1, 3)>> ELSE <<R(-3, 3), R(-3, 3), R(1, 3), 0>>
Gv(h) == <<R(-9, 9), R(-9, 9), R(-9, 9)>>
Pyth == {<<1, 2, 2>>, <<-2, 3, 6>>, <<0, 3, -4>>, <<1, 0, 0>>, <<0, 0, -2>>, <<4, -4, 7>>, <<2, 1, -2>>}
Len2(e) == CHOOSE k \in 0..20 : k * k = Norm2(e)
N == Len(ps)
Sent(k) == LET p == ps'[k] x == Tr(p) IN <<[qs |-> p.q], Vx(x[1], x[2])>>
DoNew == \E m \in {Gv(hist)}, w \in {Gv(hist)} : Fresh(m, w) /\ Record("new", <<>>, <<>>)
DoAdd == \E q \in {Gq(hist)} : IF N >= 12 THEN DoNew ELSE Add(q) /\ Record("add", <<1>> \o Sent(N + 1), <<>>)
DoPair == \E q \in {Gq(hist)}, e \in {RandomElement(Pyth)} : IF N >= 11 THEN DoNew ELSE Pair(q, e) /\ Record("add", <<2>> \o Sent(N + 1) \o Sent(N + 2), <<>>)
DoOut == \E q \in {Gq(hist)}, e \in {<<R(-99, 99), R(-99, 99), RandomElement({-150, 120, 77, -93})>>} : IF N >= 12 THEN DoNew ELSE Outlier(q, e) /\ Record("add", <<1>> \o Sent(N + 1), <<>>)
DoTip == \E o \in {RandomElement({"tip", "tipf", "cal"})} :
   IF Solvable THEN UNCHANGED vars /\ Record("t" \o o, <<>>, LET l == IF o = "tipf" THEN 3 ELSE 7 IN <<Tol(l, Vx(pm, 1)), Tol(l, Vx(pw, 1))>>) ELSE DoAdd
DoOpt == \E o \in {RandomElement({"topt", "toptf"})} : IF Solvable THEN UNCHANGED vars /\ Record(o, <<>>, LET l == IF o = "toptf" THEN 2 ELSE 4 IN <<Tol(l, Vx(pm, 1)), Tol(l, Vx(pw, 1))>>) ELSE DoPair
\* mean distance and its standard deviation, for the true values
Ls == [i \in 1..N |-> Len2(ps[i].e)]
DoErr == IF Clean /\ N >= 2 THEN \E m \in {Sum(Ls)} :
      UNCHANGED vars /\ Record("terr", <<Vx(pw, 1), Vx(pm, 1)>>, <<Tol(6, Nx(m, N)), Tol(6, [sq |-> N * Sum([i \in 1..N |-> Ls[i] * Ls[i]]) - m * m, d |-> N * (N - 1)])>>) ELSE DoPair
InlP == SelectSeq(ps, LAMBDA p : ~p.o)
\* robust even without any one of the poses in agreement
Robust == Len(InlP) >= 5 /\ Len(InlP) >= 2 * (N - Len(InlP)) /\ \A i \in 1..Len(InlP) : Fixed(SelectSeq(InlP, LAMBDA p : p.q # InlP[i].q))
DoRansac == \E o \in {RandomElement({"transac", "transacf"})}, ask \in {RandomElement({0, 0, 1})} :
   IF Exact /\ Robust /\ Len(InlP) + ask <= N THEN UNCHANGED vars /\ Record(o, <<Len(InlP) + ask, 4>>, IF ask = 1 THEN <<0>> ELSE LET l == IF o = "transacf" THEN 3 ELSE 6 IN <<1, Tol(l, Vx(pm, 1)), Tol(l, Vx(pw, 1))>>)
   ELSE IF N > Len(InlP) THEN DoNew ELSE IF Exact /\ N >= 7 THEN DoOut ELSE DoAdd
Do == \E c \in {R(1, 18)} : CASE c = 1 -> DoNew [] c <= 7 -> DoAdd [] c <= 9 -> DoPair [] c <= 12 -> DoTip [] c = 13 -> DoOpt [] c = 14 -> DoErr [] OTHER -> DoRansac
GenNext == \/ More /\ (IF hist = <<>> THEN DoNew ELSE Do)
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == Init /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
