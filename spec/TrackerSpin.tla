---------------------------- MODULE TrackerSpin ----------------------------
(* A tracker of large rotations. The tracked orientation is q0 * u^(k - k0) *)
(* at tick k: u is the rotation per tick that corresponds to the measured   *)
(* angular velocity. Measurements that agree with this motion change        *)
(* nothing, a velocity measured right at the start or after another one     *)
(* replaces u. Seen by a turning camera (inside out), the static object     *)
(* moves on a circle: p = R(q0 * u^(k - k0) * q0^-1) p0.                    *)
EXTENDS Lin
VARIABLES kind, q0, u, k0, p0, now, started, lastv, moved, dead
svars == <<kind, q0, u, k0, p0, now, started, lastv, moved, dead>>
Pw(x, k) == IF k >= 0 THEN Prim(QPow(x, k)) ELSE Prim(QPow(QConj(x), -k))
Ori(k) == Prim(QMul(q0, Pw(u, k - k0)))
\* the rotation of the position, as quaternion
Orb(k) == Prim(QMul(QMul(q0, Pw(u, k - k0)), QConj(q0)))
Pos(k) == IF kind = "io" THEN [v |-> MatVec(RotM(Orb(k)), p0), d |-> QN(Orb(k))] ELSE [v |-> p0, d |-> 1]
MayChange(t) == (~moved /\ t = now /\ lastv = -99) \/ (lastv = now /\ t # now)
Start(q, p, t) == q0' = q /\ p0' = p /\ u' = QId /\ k0' = t /\ now' = t /\ started' = TRUE /\ lastv' = -99 /\ moved' = FALSE /\ UNCHANGED <<kind, dead>>
Agreeing(t) == now' = t /\ moved' = (moved \/ t # now) /\ lastv' = (IF t # now THEN -98 ELSE lastv) /\ UNCHANGED <<kind, q0, u, k0, p0, started, dead>>
\* the new rotation per tick x from tick t on
Spin(t, x) == /\ q0' = Ori(t) /\ p0' = (IF kind = "io" THEN VDiv(Pos(t).v, Pos(t).d) ELSE p0)
              /\ k0' = t /\ u' = x /\ now' = t /\ lastv' = t /\ moved' = (moved \/ t # now) /\ UNCHANGED <<kind, started, dead>>
Whole(t) == kind # "io" \/ \A i \in 1..3 : Pos(t).v[i] % Pos(t).d = 0
Fresh(k) == kind' = k /\ q0' = QId /\ u' = QId /\ k0' = 0 /\ p0' = <<0, 0, 0>> /\ now' = 0 /\ started' = FALSE /\ lastv' = -99 /\ moved' = FALSE /\ dead' = FALSE
Init == kind = "pose" /\ q0 = QId /\ u = QId /\ k0 = 0 /\ p0 = <<0, 0, 0>> /\ now = 0 /\ started = FALSE /\ lastv = -99 /\ moved = FALSE /\ dead = FALSE
Cube == {Prim(q) : q \in {x \in Octa : x[4] >= 0 /\ (x[4] > 0 \/ x[1] + x[2] + x[3] > 0)}}
Next == \/ \E k \in {"pose", "io"} : Fresh(k)
        \/ ~started /\ \E q \in {QId, <<1, 0, 0, 1>>, <<1, 1, 1, 1>>} : Start(q, <<1, 2, 3>>, 0)
        \/ started /\ \E t \in 0..2 : Agreeing(t)
        \/ started /\ \E t \in 0..2, x \in {QId, <<0, 1, 0, 1>>, <<0, 0, 1, 0>>} : MayChange(t) /\ Whole(t) /\ Spin(t, x)
Spec == Init /\ [][Next]_svars
\* orientation and position never jump: a change of velocity keeps where they are
NoJump == [][started /\ started' /\ kind = kind' =>
     /\ SameRot(Ori(now'), Prim(QMul(q0', Pw(u', now' - k0'))))]_svars
\* the object keeps its distance, and its position seen in the body frame of a turning camera is fixed
Circle == Norm2(Pos(now).v) = Norm2(p0) * Pos(now).d * Pos(now).d
Body(t) == MatVec(RotM(QConj(Ori(t))), Pos(t).v)
Fixed == kind = "io" => \A t \in 0..3 : VScale(QN(q0) , Body(t)) = VScale(Pos(t).d * QN(Ori(t)), MatVec(RotM(QConj(q0)), p0))
=============================================================================
