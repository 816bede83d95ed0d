--------------------------- MODULE TrackerSpinGen ---------------------------
EXTENDS TrackerSpin, Gen
VARIABLE tick      \* ticks per second; at most ten radians per second are tracked
gvars == <<svars, tick>>
R(a, b) == RandomElement(a..b)
Gq(h) == LET c == R(1, 3) IN IF c = 1 THEN RandomElement(Cube) ELSE IF c = 2 THEN <<R(-2, 2), R(-2, 2), R(-2, 2), R(1, 2)>> ELSE <<R(-2, 2), 1, R(-2, 2), 0>>
Gu(h) == LET c == R(1, 4) IN IF tick >= 20 THEN <<R(-1, 1), R(-1, 1), R(-1, 1), R(9, 50)>> ELSE IF c = 1 THEN RandomElement(IF tick = 4 THEN {q \in Cube : q[4] # 0} ELSE Cube) ELSE IF c = 2 THEN QId ELSE IF c = 3 THEN <<R(-1, 1), R(-1, 1), R(-1, 1), R(3, 9)>> ELSE <<R(-1, 1), 1, R(-1, 1), R(20, 60)>>
Gp(h) == <<R(-9, 9), R(-9, 9), R(-9, 9)>>
Sg(s, q) == IF s = 1 THEN VNeg(q) ELSE q
Far == LET m == MaxAbs(u) IN IF m <= 1 THEN 8 ELSE IF m <= 3 THEN 4 ELSE IF m <= 9 THEN 3 ELSE IF m <= 30 THEN 2 ELSE 1
Near(t) == /\ MaxAbs(q0) <= 10 /\ Abs(t - k0) <= Far
           /\ kind = "io" => (MaxAbs(u) <= 1 \/ (QN(q0) <= 4 /\ Abs(t - k0) <= 2) \/ (QN(q0) <= 30 /\ Abs(t - k0) <= 1))
Tl == IF kind = "rot" THEN 3 ELSE 5
DoNew == \E k \in {RandomElement({"pose", "pose", "io", "rot"})}, po \in {R(0, 1)}, tk \in {RandomElement({2, 4, 20})} : Fresh(k) /\ tick' = (IF k = "rot" /\ tk = 20 THEN 4 ELSE tk) /\ Record("snew", <<k, po, tick'>>, <<>>)
\* settings that cannot be used
DoBad == \E po \in {R(0, 3)}, oo \in {R(0, 2)} : UNCHANGED gvars /\ Record("ctor", <<po, oo>>, IF po > 1 \/ oo # 1 THEN <<[exc |-> "ubitrack"]>> ELSE <<>>)
DoPose == \E t \in {now + R(-1, 3)}, q \in {Gq(hist)}, p \in {Gp(hist)}, s \in {R(0, 1)} :
   IF kind = "rot" \/ dead THEN DoNew
   ELSE IF ~started THEN Start(Prim(q), p, t) /\ UNCHANGED tick /\ Record("spose", <<t, [qs |-> Sg(s, q)], Vx(p, 1)>>, <<>>)
   ELSE IF ~Near(t) THEN DoNew
   ELSE Agreeing(t) /\ UNCHANGED tick /\ Record("spose", <<t, [qs |-> Sg(s, Ori(t))], Vx(Pos(t).v, Pos(t).d)>>, <<>>)
DoRot == \E t \in {now + R(-1, 3)}, q \in {Gq(hist)}, s \in {R(0, 1)} :
   IF dead THEN DoNew
   ELSE IF ~started THEN Start(Prim(q), <<0, 0, 0>>, t) /\ UNCHANGED tick /\ Record("srot", <<t, [qs |-> Sg(s, q)]>>, <<>>)
   ELSE IF ~Near(t) THEN DoNew
   ELSE Agreeing(t) /\ UNCHANGED tick /\ Record("srot", <<t, [qs |-> Sg(s, Ori(t))]>>, <<>>)
\* angular velocity measured as its rotation per tick, with its logarithm taken by the harness; f: as seen from the other side
DoVel == \E t \in {now + R(0, 2)}, x \in {Gu(hist)}, same \in {R(0, 2)}, f \in {IF kind = "rot" THEN 0 ELSE R(0, 1)} :
   IF dead THEN DoNew
   ELSE IF ~started THEN (IF kind = "rot" THEN DoRot ELSE UNCHANGED gvars /\ Record("svel", <<t, f, [qs |-> x], [qs |-> QId]>>, <<>>))
   ELSE IF same > 0 /\ MayChange(t) /\ Near(t) /\ Whole(t) /\ MaxAbs(Ori(t)) <= 10 /\ (f = 0 \/ u = QId)
        THEN Spin(t, Prim(x)) /\ UNCHANGED tick /\ Record("svel", <<t, f, [qs |-> x], [qs |-> Ori(t)]>>, <<>>)
   ELSE IF Near(t) THEN now' = t /\ lastv' = (IF f = 0 \/ u = QId THEN t ELSE -98) /\ moved' = (moved \/ t # now) /\ UNCHANGED <<kind, q0, u, k0, p0, started, dead, tick>> /\ Record("svel", <<t, f, [qs |-> u], [qs |-> Ori(t)]>>, <<>>)
   ELSE DoNew
\* more than ten radians per second: taken as a failure, the velocity is forgotten
DoFast == \E t \in {now + R(0, 2)}, x \in {Gp(hist)} :
   IF ~dead /\ started /\ kind # "rot" /\ MayChange(t) /\ Near(t) /\ Whole(t) /\ MaxAbs(Ori(t)) <= 10 /\ Norm2(x) > 0
   THEN Spin(t, QId) /\ UNCHANGED tick /\ Record("sfast", <<t, Vx(x, 1), R(11, 40)>>, <<>>) ELSE DoNew
DoPredict == \E t \in {now + R(-3, 4)} :
   IF dead THEN DoNew
   ELSE IF ~started THEN (IF kind = "rot" THEN DoRot ELSE UNCHANGED gvars /\ Record("spredict", <<t>>, <<[exc |-> "ubitrack"]>>))
   ELSE IF ~Near(t) THEN DoNew
   ELSE UNCHANGED gvars /\ Record("spredict", <<t>>, <<t, Tol(Tl, Qx(Ori(t)))>> \o (IF kind = "rot" THEN <<>> ELSE <<Tol(Tl, Vx(Pos(t).v, Pos(t).d))>>) \o <<1>>)
\* any other pose, measured long enough, is taken over
DoSettle == \E q \in {Gq(hist)}, p \in {Gp(hist)}, s \in {R(0, 1)} :
   IF kind = "io" \/ dead \/ ~started THEN DoNew
   ELSE dead' = TRUE /\ UNCHANGED <<kind, q0, u, k0, p0, now, started, lastv, moved, tick>> /\ Record("settle", <<now, [qs |-> Sg(s, q)], Vx(p, 1)>>, <<Tol(2, Qx(q))>> \o (IF kind = "rot" THEN <<>> ELSE <<Tol(2, Vx(p, 1))>>) \o <<1>>)
Do == \E c \in {R(1, 32)} : CASE c = 1 -> DoNew [] c = 2 -> DoBad [] c <= 8 -> DoPose [] c <= 12 -> DoRot [] c <= 18 -> DoVel [] c = 19 -> DoFast [] c <= 31 -> DoPredict [] OTHER -> DoSettle
GenNext == \/ More /\ (IF hist = <<>> THEN DoNew ELSE Do)
           \/ ~More /\ Finish /\ UNCHANGED gvars
GenSpec == Init /\ tick = 4 /\ GenStart /\ [][GenNext]_<<gvars, hist, emitted>>
=============================================================================
