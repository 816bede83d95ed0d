----------------------------- MODULE MCPoseEst -----------------------------
EXTENDS PoseEst
VARIABLES q, t, q2, t2, p, v, set
vars == <<q, t, q2, t2, p, v, set>>
MCQs == {<<0, 0, 0, 1>>, <<1, 0, 0, 1>>, <<0, 1, 0, 0>>, <<1, -1, 1, 1>>, <<0, 0, 1, -1>>, <<1, 1, 0, 0>>}
MCTs == {<<0, 0, -5>>, <<1, 2, -6>>, <<0, 1, -5>>, <<0, 0, -7>>}
K == <<2, 1, -1, -3, 2>>
Init == q \in MCQs /\ t \in MCTs /\ q2 = q /\ t2 = t /\ p = <<0, 0, 0>> /\ v = <<0, 0, 0>> /\ set = FALSE
Next == ~set /\ set' = TRUE /\ UNCHANGED <<q, t>> /\ q2' \in MCQs /\ t2' \in MCTs /\ p' \in {<<1, 0, 0>>, <<2, -1, 1>>, <<0, 1, -1>>} /\ v' \in {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 1, 2>>, <<1, 1, -1>>}
Spec == Init /\ [][Next]_vars
Marker == << <<2, 2, 1>>, <<-2, 2, 1>>, <<-2, -2, 1>>, <<2, -2, 1>> >>
C == K34(K)
\* four points of a plane determine the pose in front of the camera
Determined == (\A k \in 1..4 : SamePoint(Proj(C, q, t, Marker[k]), Proj(C, q2, t2, Marker[k]))) => SameRot(q, q2) /\ t = t2
\* the derivative by the translation is exact up to the change of depth: h3 (h3 + c) (image(t + v) - image(t)) = h3^2 J v
DTrans == LET h == Proj(C, q, t, p) g == Proj(C, q, VAdd(t, v), p) d == MatVec(DImg(C, q, t, p), v \o <<0, 0, 0>>) IN
   h[3] * g[1] - g[3] * h[1] = d[1] /\ h[3] * g[2] - g[3] * h[2] = d[2]
\* the derivative by the rotation: (1 + |v|^2) e p e* = (1 - |v|^2) p + 2 (v . p) v + D v for e = (v, 1), and D is what DMove rotates
DRot == LET e == v \o <<1>> n == Norm2(v)
            lhs == MatVec(RotM(e), p)
            rest == VAdd(VScale(1 - n, p), VScale(2 * Dot(v, p), v)) IN
   MatVec(RI(q), VSub(lhs, rest)) = MatVec(DMove(q, p), <<0, 0, 0>> \o v)
Undo == Back(q, t, Move(q, t, p)) = p
Symmetric == LET m == Info16(<<C>>, q, <<0, 0, -2>>, << <<p, 1>> >>) IN set /\ Proj(C, q, <<0, 0, -2>>, p)[3] \in {1, 2} => m = Trans(m)
Zeros == set /\ Proj(C, q, <<0, 0, -2>>, p)[3] = 1 => Err4(C, q, <<0, 0, -2>>, <<p>>, <<SubSeq(Proj(C, q, <<0, 0, -2>>, p), 1, 2)>>) = 0
\* a camera in the world and a body in the world are a body in the frame of the camera
Composed == Proj(CamM(K, q2, t2), q, t, p) = Proj(C, QM(q2, q), Move(q2, t2, t), p)
=============================================================================
