------------------------------ MODULE HandEye ------------------------------
(* Hand-eye calibration: two bodies joined by an unknown rigid motion x are  *)
(* seen in poses with hand_i x eye_i = w for an unknown constant w. The      *)
(* motions between two moments therefore satisfy  g x = x c  with            *)
(* g = hand_j^-1 hand_i and c = eye_j eye_i^-1, which determines x as soon   *)
(* as motions about two different axes were seen.                            *)
EXTENDS Lin
CONSTANTS MaxPoses
VARIABLES x, w, eye
vars == <<x, w, eye>>
Hand(e) == PMul(w, PMul(PInv(e), PInv(x)))
G(a, b) == PMul(PInv(Hand(b)), Hand(a))
Cc(a, b) == PMul(b, PInv(a))
Pairs(n, all) == {p \in (1..n) \X (1..n) : IF all THEN p[1] < p[2] ELSE p[2] = p[1] + 1}
AxisOf(p) == QIm(QMul(eye[p[2]].q, QConj(eye[p[1]].q)))
RealOf(p) == Dot(eye[p[2]].q, eye[p[1]].q)
Init == x = PId /\ w = PId /\ eye = <<>>
Fresh(a, b) == x' = a /\ w' = b /\ eye' = <<>>
Add(e) == eye' = Append(eye, e) /\ UNCHANGED <<x, w>>
Solvable(all) == /\ Len(eye) >= 3
                 /\ \E p, q \in Pairs(Len(eye), all) : ~IsZero(Cross(AxisOf(p), AxisOf(q)))
                 /\ \A p \in Pairs(Len(eye), all) : RealOf(p) # 0
Qs == {<<0, 0, 0, 1>>, <<1, 0, 0, 1>>, <<0, 1, 0, 2>>, <<0, -1, 1, 1>>}
Next == \/ eye = <<>> /\ \E q \in Qs : Fresh(Pose(q, <<1, 2, 3>>, 1), Pose(<<1, 1, 1, 1>>, <<0, 1, 0>>, 1))
        \/ Len(eye) < MaxPoses /\ \E q \in Qs, t \in {<<0, 0, 0>>, <<1, -1, 2>>} : Add(Pose(q, t, 1))
Spec == Init /\ [][Next]_vars
Joined == \A i \in 1..Len(eye) : PSame(PMul(Hand(eye[i]), PMul(x, eye[i])), w)
Moves == \A i, j \in 1..Len(eye) : PSame(PMul(G(eye[i], eye[j]), x), PMul(x, Cc(eye[i], eye[j])))
\* equal angles on both sides
Angles == \A i, j \in 1..Len(eye) : LET g == G(eye[i], eye[j]).q c == Cc(eye[i], eye[j]).q IN g[4] * g[4] * QN(c) = c[4] * c[4] * QN(g)
\* no other motion fits
Cand == {Pose(q, t, 1) : q \in Qs, t \in {<<1, 2, 3>>, <<1, 2, 2>>}}
OnlyOne == Solvable(TRUE) => \A c \in Cand : PSame(c, x) \/ \E i, j \in 1..Len(eye) : ~PSame(PMul(G(eye[i], eye[j]), c), PMul(c, Cc(eye[i], eye[j])))
=============================================================================
