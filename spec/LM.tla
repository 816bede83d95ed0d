---------------------------------- MODULE LM ----------------------------------
(* Damped least squares as a state machine. One parameter x in units of 1/U,  *)
(* the difference d between measurement and prediction at x, the derivative j *)
(* there, the damping lambda = 2^k. What the problem predicts at the          *)
(* parameters it is asked for is up to the environment: the new difference v  *)
(* is any integer or Nan, the derivative 1, -1, 2 or -2. A step is kept if    *)
(* and only if it makes the squared error smaller.                            *)
EXTENDS Lin
The(S) == CHOOSE e \in S : TRUE
Nan == 9999
U == 33660
\* U j / (j^2 + 2^k) for k = -3..3
StepUnits == << <<29920, 26928, 22440, 16830, 11220, 6732, 3740>>, <<16320, 15840, 14960, 13464, 11220, 8415, 5610>> >>
Jacs == {1, -1, 2, -2}
Delta(k, d, j) == (IF j < 0 THEN -d ELSE d) * StepUnits[Abs(j)][k + 4]
LmInit(x, d, j) == [x |-> x, d |-> d, j |-> j, k |-> 0, it |-> 0, asked |-> <<x>>, crit |-> <<>>, vs |-> <<d>>, js |-> <<j>>]
\* the parameters that are tried next; nrm (the normalisation) is added to them
Trial(s, nrm) == s.x + Delta(s.k, s.d, s.j) + nrm
Better(v, d) == v # Nan /\ Abs(v) < Abs(d)
LmStep(s, v, j, nrm) == [x |-> IF Better(v, s.d) THEN Trial(s, nrm) ELSE s.x, d |-> IF Better(v, s.d) THEN v ELSE s.d, j |-> IF Better(v, s.d) THEN j ELSE s.j,
   k |-> IF Better(v, s.d) THEN s.k - 1 ELSE s.k + 1, it |-> s.it + 1, asked |-> Append(s.asked, Trial(s, nrm)),
   crit |-> Append(s.crit, <<s.it + 1, IF v = Nan THEN Nan ELSE v * v, s.d * s.d>>), vs |-> Append(s.vs, v), js |-> Append(s.js, j)]
KOk(k) == k >= -3 /\ k <= 3
\* the termination criterion: n iterations (0: any number) or a relative change of less than pn / pd
Stop(n, pn, pd, i, a, b) == (n > 0 /\ i >= n) \/ (pn # 0 /\ Abs(a - b) * pd < pn * b)
\* one damped step of the linear problem A x = b with weights w: (A'WA + l/m I) y = A'W (b - A x), exactly
Weigh(a, w) == TLCEval([i \in 1..Len(a) |-> VScale(w[i], a[i])])
Normal(a, w, l, m) == The({MAdd(MScale(m, MatMul(Trans(a), wa)), MScale(l, Ident(Len(a[1])))) : wa \in {Weigh(a, w)}})
Grad(a, w, b, x) == MatVec(Trans(a), TLCEval([i \in 1..Len(a) |-> w[i] * (b[i] - Dot(a[i], x))]))
AdjP(n) == IF Len(n) = 1 THEN << <<1>> >> ELSE IF Len(n) = 2 THEN << <<n[2][2], -n[1][2]>>, <<-n[2][1], n[1][1]>> >> ELSE Adj3(n)
DetP(n) == IF Len(n) = 1 THEN n[1][1] ELSE IF Len(n) = 2 THEN Det2(n) ELSE Det3(n)
=============================================================================
