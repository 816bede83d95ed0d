----------------------------- MODULE TrackerGen -----------------------------
EXTENDS Tracker, Gen
VARIABLE noisy      \* process noise of each order, and whether the estimate still is free of it
gvars == <<reg, conf, time, started, noisy>>
R(a, b) == RandomElement(a..b)
RQ(h) == RandomElement({<<0, 0, 0, 1>>, <<1, 0, 0, 1>>, <<1, 0, 0, 0>>, <<1, 1, 1, 1>>, <<1, -2, 3, 4>>, <<-3, 1, 1, 2>>, <<0, 2, -1, 0>>})
FitA(r) == IF N(r) = 3 THEN MaxAbs(Flat(r.l)) <= 100 /\ MaxAbs(r.e) <= 10000 ELSE MaxAbs(Flat(r.l)) <= 2000 /\ MaxAbs(r.e) <= 200000
Vd(m) == [v |-> m.v, d |-> m.d]
\* noise: squares over 4 per derivative, <<>> for none
DoNew == \E po \in {R(0, 2)}, oo \in {R(0, 1)}, q \in {RQ(hist)}, z \in {R(0, 2)} : \E pn \in {TLCEval([i \in 1..(po + 1) |-> IF z = 0 THEN R(0, 3) ELSE 0])}, on \in {TLCEval([i \in 1..(oo + 1) |-> IF z = 0 THEN R(0, 3) ELSE 0])} :
   New([po |-> po, oo |-> oo]) /\ noisy' = [pn |-> pn, on |-> on, on0 |-> z = 0, used |-> FALSE]
   /\ Record("new", <<po, oo, z, Qx(q), [v |-> pn, d |-> 2], [v |-> on, d |-> 2]>>, <<>>)
\* what the state should be
MeanOf(k) == Vd(Mean(reg'[k]))
CovOf(k) == [v |-> Flat(Cov(reg'[k]).v), d |-> Cov(reg'[k]).d]
StateX == <<Tol(6, MeanOf(1)), Tol(6, MeanOf(2)), Tol(6, MeanOf(3)), Tol(2, MeanOf(4)), Tol(2, MeanOf(5)), Tol(2, MeanOf(6)),
            Tol(6, CovOf(1)), Tol(6, CovOf(2)), Tol(6, CovOf(3)), Tol(3, CovOf(4)), Tol(3, CovOf(5)), Tol(3, CovOf(6))>>
DtOk(d) == IF conf.po = 2 \/ conf.oo = 1 THEN 2 * d ELSE d
Clean == ~noisy.used /\ (~noisy.on0 \/ ~started)
DoPose == \E d \in {R(-1, 3)}, s \in {R(0, 1)} : \E z \in {TLCEval([k \in 1..6 |-> IF k <= 3 THEN R(-30, 30) ELSE R(-90, 90)])}, w \in {TLCEval([k \in 1..6 |-> R(1, 5)])} :
   \E r \in {Measured(time + DtOk(d), z, w)} :
   IF Clean /\ \A k \in 1..6 : FitA(r[k])
   THEN reg' = r /\ time' = time + DtOk(d) /\ started' = TRUE /\ UNCHANGED conf /\ UNCHANGED noisy /\ Record("pose", <<time', s, [v |-> z, d |-> 1], w>>, StateX) ELSE DoNew
DoRot == \E d \in {R(-1, 3)}, s \in {R(0, 1)} : \E z \in {TLCEval([k \in 1..6 |-> IF k <= 3 THEN 0 ELSE R(-90, 90)])} :
   \E r \in {Measured(time + DtOk(d), z, <<0, 0, 0, 250, 250, 250>>)} :
   IF Clean /\ \A k \in 1..6 : FitA(r[k])
   THEN reg' = r /\ time' = time + DtOk(d) /\ started' = TRUE /\ UNCHANGED conf /\ UNCHANGED noisy /\ Record("rot", <<time', s, [v |-> <<z[4], z[5], z[6]>>, d |-> 1]>>, StateX) ELSE DoNew
\* noise added to the covariance of an axis moved by t
Nz(k, i) == IF k <= 3 THEN noisy.pn[i] * noisy.pn[i] ELSE noisy.on[i] * noisy.on[i]
Grown(k, t) == LET c == PCov(k, reg[k], t) IN
   [v |-> [i \in 1..Len(c.v) |-> [j \in 1..Len(c.v) |-> 4 * c.v[i][j] + (IF i = j THEN Abs(t) * Nz(k, i) * c.d ELSE 0)]], d |-> 4 * c.d]
PM(k, t) == LET m == PMean(k, reg[k], t) IN [v |-> <<m.v[1]>>, d |-> m.d]
PC(k, t) == LET m == Grown(k, t) IN [v |-> <<m.v[1][1]>>, d |-> m.d]
GFit == \A k \in 1..6 : MaxAbs(Flat(Cov(reg[k]).v)) < 100000 /\ Cov(reg[k]).d < 4000000
DoPredict == \E d \in {R(-3, 4)} : \E t \in {DtOk(d)} :
   IF ~started THEN UNCHANGED gvars /\ Record("predict", <<time + t>>, <<[exc |-> "ubitrack"]>>)
   ELSE IF noisy.used \/ ~GFit THEN DoNew
   ELSE UNCHANGED gvars /\ Record("predict", <<time + t>>, <<time + t, Tol(6, PM(1, t)), Tol(6, PM(2, t)), Tol(6, PM(3, t)), Tol(2, PM(4, t)), Tol(2, PM(5, t)), Tol(2, PM(6, t)),
                        Tol(6, PC(1, t)), Tol(6, PC(2, t)), Tol(6, PC(3, t)), Tol(3, PC(4, t)), Tol(3, PC(5, t)), Tol(3, PC(6, t))>>)
GC(k, t) == [v |-> Flat(Grown(k, t).v), d |-> Grown(k, t).d]
GM(k, t) == Vd(PMean(k, reg[k], t))
DoAdvance == \E d \in {R(-3, 4)} : \E t \in {DtOk(d)} :
   IF ~started \/ noisy.used \/ ~GFit THEN DoNew
   ELSE /\ noisy' = [noisy EXCEPT !.used = TRUE] /\ UNCHANGED <<reg, conf, time, started>>
        /\ Record("advance", <<time + t>>, <<Tol(6, GM(1, t)), Tol(6, GM(2, t)), Tol(6, GM(3, t)), Tol(2, GM(4, t)), Tol(2, GM(5, t)), Tol(2, GM(6, t)),
                        Tol(6, GC(1, t)), Tol(6, GC(2, t)), Tol(6, GC(3, t)), Tol(3, GC(4, t)), Tol(3, GC(5, t)), Tol(3, GC(6, t))>>)
Do == \E c \in {R(1, 12)} : CASE c = 1 -> DoNew [] c <= 6 -> DoPose [] c <= 8 -> DoRot [] c <= 11 -> DoPredict [] OTHER -> DoAdvance
GenNext == \/ More /\ (IF hist = <<>> THEN DoNew ELSE Do)
           \/ ~More /\ Finish /\ UNCHANGED gvars
GenInit == SInit /\ noisy = [pn |-> <<0, 0>>, on |-> <<0>>, on0 |-> FALSE, used |-> FALSE]
GenSpec == GenInit /\ GenStart /\ [][GenNext]_<<gvars, hist, emitted>>
=============================================================================
