------------------------------ MODULE Tracker ------------------------------
(* A pose tracker: six independent axes (three of the translation, three of *)
(* the rotation close to a reference orientation), each a linear estimate   *)
(* in information form of its value and its derivatives. Time moves every   *)
(* axis by the polynomial motion model, measurements add information, and   *)
(* predictions change nothing. Rotation axes are measured as half angles,   *)
(* so that a velocity v moves them by v * dt / 2.                           *)
EXTENDS Kalman
VARIABLES conf, time, started
tvars == <<reg, conf, time, started>>
PosF(n, t) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j < i THEN 0 ELSE IF j = i THEN 1 ELSE IF j = i + 1 THEN t ELSE (t * t) \div 2]])
OriF(n, t) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j < i THEN 0 ELSE IF j = i THEN 1 ELSE IF i = 1 THEN t \div 2 ELSE t]])
Fm(k, n, t) == IF k <= 3 THEN PosF(n, t) ELSE OriF(n, t)
Order(c, k) == IF k <= 3 THEN c.po ELSE c.oo
Moved(k, r, t) == Affine(r, Fm(k, N(r), -t), Zero(N(r)))
Unit(n) == << [j \in 1..n |-> IF j = 1 THEN 1 ELSE 0] >>
Seen(r, w, z) == IF w = 0 THEN r ELSE Update(r, << <<1>> >>, 1, << <<w>> >>, <<z>>)
Fresh(n, z) == Est(Ident(n), [j \in 1..n |-> IF j = 1 THEN z ELSE 0])
\* an absolute measurement of all axes with weights w (0: not measured) at time t
Base(c, k, t, z) == IF started THEN Moved(k, reg[k], t - time) ELSE Fresh(Order(c, k) + 1, z)
Measured(t, z, w) == TLCEval([k \in 1..6 |-> Seen(Base(conf, k, t, IF w[k] = 0 THEN 0 ELSE z[k]), w[k], z[k])])
Measure(t, z, w) == /\ reg' = Measured(t, z, w) /\ time' = t /\ started' = TRUE /\ UNCHANGED conf
New(c) == conf' = c /\ time' = 0 /\ started' = FALSE /\ reg' = TLCEval([k \in 1..6 |-> Fresh(Order(c, k) + 1, 0)])

SInit == conf = [po |-> 1, oo |-> 0] /\ time = 0 /\ started = FALSE /\ reg = [k \in 1..6 |-> Fresh(IF k <= 3 THEN 2 ELSE 1, 0)]
Bounded == \A k \in 1..6 : Small(reg'[k])
SNext == \/ \E c \in {[po |-> 0, oo |-> 1], [po |-> 1, oo |-> 0]} : New(c)
         \/ \E t \in {0, 2}, z \in {0, 1}, w \in {<<1, 1, 1, 1, 1, 1>>, <<1, 0, 0, 1, 0, 0>>} : Measure(t, [k \in 1..6 |-> IF k % 3 = 1 THEN z ELSE 0], w) /\ Bounded
TSpec == SInit /\ [][SNext]_tvars
Active == {1, 4}
TValid == \A k \in Active : PosDef(reg[k].l)
\* going forth and back, or in two steps, is the same as doing nothing, or one step
Flow == \A k \in Active : Moved(k, Moved(k, reg[k], 2), -2) = reg[k] /\ Moved(k, Moved(k, reg[k], 2), 4) = Moved(k, reg[k], 6)
\* the value and covariance predicted for another time
PMean(k, r, t) == LET m == Mean(r) IN [v |-> MatVec(Fm(k, N(r), t), m.v), d |-> m.d]
PCov(k, r, t) == LET c == Cov(r) f == Fm(k, N(r), t) IN [v |-> MatMul(f, MatMul(c.v, Trans(f))), d |-> c.d]
Predicts == \A k \in Active : LET a == PMean(k, reg[k], 2) b == Mean(Moved(k, reg[k], 2)) c == PCov(k, reg[k], 2) e == Cov(Moved(k, reg[k], 2)) IN
   /\ VScale(b.d, a.v) = VScale(a.d, b.v) /\ MScale(e.d, c.v) = MScale(c.d, e.v)
\* a measurement that agrees with the estimate does not move it
Agree == \A k \in Active : LET m == Mean(reg[k]) IN (m.v[1] % m.d = 0) =>
   LET x == Mean(Seen(reg[k], 2, m.v[1] \div m.d)) IN VScale(x.d, m.v) = VScale(m.d, x.v)
=============================================================================
