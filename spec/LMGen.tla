-------------------------------- MODULE LMGen --------------------------------
EXTENDS LM, Gen
R(lo, hi) == RandomElement(lo..hi)
Fl == {"", "", "f"}
T(f) == IF f = "f" THEN 3 ELSE 8
\* a run against a scripted problem; every value the code may ask for is known beforehand
RECURSIVE Script(_, _, _, _)
Script(s, n, nrm, h) == IF n = 0 \/ ~KOk(s.k) THEN s ELSE The({Script(t, n - 1, nrm, h) : t \in {TLCEval(LmStep(s, IF R(1, 8) = 1 THEN Nan ELSE IF R(1, 2) = 1 THEN R(-9, 9) ELSE (s.d * R(-4, 4)) \div 5, RandomElement(Jacs), nrm))}})
DoLm == \E f \in {RandomElement(Fl)}, x \in {R(-99999, 99999)}, d \in {R(-40, 40)}, nrm \in {RandomElement({0, 0, 0, U \div 2, -U})}, so \in {R(0, 2)} : \E s \in {Script(LmInit(x, d, RandomElement(Jacs)), R(1, 7), nrm, hist)} :
   Record("lm" \o f, <<so, Nx(x, U), Nx(nrm, U), s.it, s.vs, s.js>>, [i \in 1..(s.it + 1) |-> Tol(T(f), Nx(s.asked[i], U))] \o <<Tol(T(f), Nx(s.x, U)), s.d * s.d>> \o [i \in 1..(3 * s.it) |-> LET c == s.crit[(i + 2) \div 3][1 + ((i - 1) % 3)] IN IF c = Nan THEN -1 ELSE c])
DoTerm == \E n \in {RandomElement({0, 1, 5})}, p \in {RandomElement({<<0, 1>>, <<1, 10>>, <<1, 100>>, <<1, 2>>, <<3, 1>>})}, i \in {R(1, 7)}, a \in {R(0, 100)}, b \in {R(0, 100)} :
   \E aa \in {IF R(1, 2) = 1 THEN a ELSE b + R(-2, 2)} :
   IF aa < 0 \/ Abs(aa - b) * p[2] = p[1] * b THEN Record("term", <<3, 0, 1, 3, 10, 10>>, <<1>>) ELSE
   Record("term", <<n, p[1], p[2], i, aa, b>>, <<IF Stop(n, p[1], p[2], i, aa, b) THEN 1 ELSE 0>>)
Ga(m, p, h) == TLCEval([i \in 1..m |-> [j \in 1..p |-> R(-3, 3)]])
Sol(n, g, x) == The({The({Vx([i \in 1..Len(x) |-> x[i] * d + MatVec(a, g)[i]], d) : a \in {AdjP(n)}}) : d \in {DetP(n)}})
DoLin == \E f \in {RandomElement(Fl)}, so \in {R(0, 2)}, p \in {R(1, 3)} : \E m \in {p + R(0, 2)} : \E a \in {Ga(m, p, hist)}, b \in {TLCEval([i \in 1..m |-> R(-5, 5)])}, x \in {TLCEval([i \in 1..p |-> R(-3, 3)])}, l \in {RandomElement({<<1, 1>>, <<1, 1>>, <<1, 2>>, <<4, 1>>, <<10, 1>>})}, w \in {IF R(1, 2) = 1 THEN TLCEval([i \in 1..m |-> 1]) ELSE TLCEval([i \in 1..m |-> R(0, 4)])} :
   \E n \in {Normal(a, w, l[1], l[2])}, g \in {VScale(l[2], Grad(a, w, b, x))} :
   Record("lin" \o f, <<so, 1, p, m, Mx(a, 1), Vx(b, 1), Vx(x, 1), Nx(l[1], l[2]), Vx(w, 1)>>, <<Tol(T(f), Sol(n, g, x)), 1>>)
\* many undamped or weakly damped steps: the least squares solution
DoConv == \E f \in {RandomElement(Fl)}, gn \in {R(0, 1)}, so \in {R(0, 2)}, p \in {R(1, 3)} : \E m \in {p + R(0, 2)} : \E a \in {Ga(m, p, hist)}, b \in {TLCEval([i \in 1..m |-> R(-5, 5)])}, x \in {TLCEval([i \in 1..p |-> R(-3, 3)])}, w \in {TLCEval([i \in 1..m |-> IF gn = 1 THEN 1 ELSE R(1, 4)])} :
   \E n \in {Normal(a, w, 0, 1)}, g \in {Grad(a, w, b, x)} :
   IF DetP(n) < 10 THEN DoTerm ELSE
   IF gn = 1 THEN Record("gn" \o f, <<R(1, 3), p, m, Mx(a, 1), Vx(b, 1), Vx(x, 1)>>, <<Tol(IF f = "f" THEN 2 ELSE 7, Sol(n, g, x))>>)
   ELSE Record("lin" \o f, <<so, 40, p, m, Mx(a, 1), Vx(b, 1), Vx(x, 1), Nx(1, 1), Vx(w, 1)>>, <<Tol(IF f = "f" THEN 2 ELSE 6, Sol(n, g, x)), 1>>)
\* the number of runs: smallest n with (1 - w)^n < 1/m for w = (p / b)^k; the required inliers: (p / b) n rounded down
RECURSIVE Runs(_, _, _, _, _, _)
Runs(u, v, m, n, un, vn) == IF un * m < vn THEN n ELSE Runs(u, v, m, n + 1, un * u, vn * v)
DoPar == \E f \in {RandomElement(Fl)}, q \in {RandomElement({<<1, 2, 1>>, <<1, 2, 2>>, <<1, 4, 1>>, <<3, 4, 1>>, <<3, 4, 2>>, <<3, 5, 1>>, <<2, 3, 1>>, <<2, 3, 2>>, <<9, 10, 2>>, <<9, 10, 1>>, <<4, 5, 2>>})}, m \in {RandomElement({3, 7, 10, 30})}, n \in {R(5, 60)} :
   \E v \in {Pow(q[2], q[3])} : \E u \in {v - Pow(q[1], q[3])} :
   IF (n * q[1]) % q[2] = 0 \/ (\E e \in 1..3 : Pow(u, e) * m = Pow(v, e)) THEN DoTerm ELSE
   Record("rpar" \o f, <<Nx(3, 2), q[3], n, Nx(q[2] - q[1], q[2]), Nx(m - 1, m)>>, <<Nx(3, 2), q[3], (n * q[1]) \div q[2], Runs(u, v, m, 0, 1, 1)>>)
Do == \E c \in {R(1, 12)} : CASE c <= 5 -> DoLm [] c = 6 -> DoTerm [] c <= 9 -> DoLin [] c <= 11 -> DoConv [] OTHER -> DoPar
GenNext == \/ More /\ Do
           \/ ~More /\ Finish
GenSpec == GenStart /\ [][GenNext]_<<hist, emitted>>
=============================================================================
