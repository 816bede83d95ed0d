------------------------------- MODULE Kalman -------------------------------
(* Linear estimation in information form. A register holds the information  *)
(* matrix L (symmetric, positive definite) and the vector e of an estimate: *)
(* its mean is L^-1 e and its covariance L^-1. A measurement z = H x with   *)
(* covariance W^-1 adds H^T W H and H^T W z - so measurements commute and   *)
(* batches equal sequences. An affine map x -> A x + c transforms both.     *)
(* Everything is integer; means and covariances are adjugates over the      *)
(* determinant.                                                             *)
EXTENDS Lin
CONSTANTS NR, LB      \* registers, bound on the information matrix
VARIABLE reg
vars == <<reg>>
Regs == 1..NR
The(S) == CHOOSE x \in S : TRUE
Est(l, e) == TLCEval([l |-> l, e |-> e])
N(r) == Len(r.e)
Mean(r) == [v |-> MatVec(AdjN(r.l), r.e), d |-> Det(r.l)]
Cov(r) == [v |-> AdjN(r.l), d |-> Det(r.l)]
\* H acts on the components b..e of the state
Embed(h, n, b) == [i \in 1..Len(h) |-> [j \in 1..n |-> IF j >= b /\ j < b + Len(h[1]) THEN h[i][j - b + 1] ELSE 0]]
Update(r, h, b, w, z) == The({Est(MAdd(r.l, MatMul(Trans(g), MatMul(w, g))), VAdd(r.e, MatVec(Trans(g), MatVec(w, z)))) : g \in {TLCEval(Embed(h, N(r), b))}})
\* unimodular A with integer inverse B
Affine(r, b, c) == The({Est(l, VAdd(MatVec(Trans(b), r.e), MatVec(l, c))) : l \in {MatMul(Trans(b), MatMul(r.l, b))}})
RECURSIVE PD(_, _)
PD(m, k) == IF k = 0 THEN TRUE ELSE PD(m, k - 1) /\ Det([i \in 1..k |-> [j \in 1..k |-> m[i][j]]]) > 0
PosDef(m) == Trans(m) = m /\ PD(m, Len(m))

Hs == {<< <<1, 0>> >>, << <<1, -1>> >>, << <<1, 2>>, <<0, 1>> >>}
Ws(m) == IF m = 1 THEN {<< <<1>> >>, << <<2>> >>} ELSE {<< <<2, 1>>, <<1, 1>> >>, << <<1, 0>>, <<0, 3>> >>}
Init == reg = [i \in Regs |-> Est(Ident(2), <<0, 0>>)]
Small(r) == MaxAbs(Flat(r.l)) <= LB /\ MaxAbs(r.e) <= LB
Step(r) == {x \in UNION { UNION { {Update(r, h, 1, w, z) : z \in (IF Len(h) = 1 THEN {<<0>>, <<2>>} ELSE {<<1, -1>>})} : w \in Ws(Len(h))} : h \in Hs}
            \cup {Affine(r, b, <<1, 0>>) : b \in {<< <<1, 1>>, <<0, 1>> >>, << <<0, 1>>, <<1, 0>> >>}} : Small(x)}
Next == \E i \in Regs : \E x \in Step(reg[i]) : reg' = [reg EXCEPT ![i] = x]
Spec == Init /\ [][Next]_vars
Valid == \A i \in Regs : PosDef(reg[i].l)
\* the covariance is the inverse, it is positive definite, and another measurement never increases it
Consistent == \A i \in Regs : LET r == reg[i] c == Cov(r) IN MatMul(c.v, r.l) = MScale(c.d, Ident(2)) /\ PosDef(c.v)
Shrinks == \A i \in Regs : \A h \in Hs : \A w \in Ws(Len(h)) : \A x \in {Update(reg[i], h, 1, w, [k \in 1..Len(h) |-> 1])} :
     LET c == Cov(reg[i]) d == Cov(x) IN \A k \in 1..2 : d.v[k][k] * c.d <= c.v[k][k] * d.d
\* order does not matter, and the mean minimises the weighted squared deviation: L mean = e
Commute == \A i \in Regs : \A h, g \in Hs : \A w \in Ws(Len(h)), v \in Ws(Len(g)) :
     LET a == [k \in 1..Len(h) |-> k] b == [k \in 1..Len(g) |-> 1 - k] IN
     Update(Update(reg[i], h, 1, w, a), g, 1, v, b) = Update(Update(reg[i], g, 1, v, b), h, 1, w, a)
Optimal == \A i \in Regs : LET m == Mean(reg[i]) IN MatVec(reg[i].l, m.v) = VScale(m.d, reg[i].e)
=============================================================================
