------------------------------ MODULE MCCamera ------------------------------
EXTENDS Camera
MCKs == {<<1, 0, 0, 1, 0>>, <<2, 1, -1, -3, 2>>}
MCQs == {<<0, 0, 0, 1>>, <<1, 0, 0, 1>>, <<0, 1, 0, 0>>, <<1, -1, 1, 2>>}
MCTs == {<<0, 0, -5>>, <<1, 2, -6>>, <<0, 0, -6>>}
MCXs == {<<i, j, k>> : i \in {-1, 2}, j \in {0, 1}, k \in {0, 1}}
\* exhaustive exploration: a rig of two cameras and two world points
VARIABLES a, b, x, y, set
vars == <<a, b, x, y, set>>
Cams == {Cam(k, q, t) : k \in MCKs, q \in MCQs, t \in MCTs}
Init == a \in Cams /\ b = a /\ x = <<0, 0, 0>> /\ y = <<0, 0, 0>> /\ set = FALSE
Next == ~set /\ a' = a /\ b' \in Cams /\ x' \in MCXs /\ y' \in MCXs /\ set' = TRUE
Spec == Init /\ [][Next]_vars
Moved == ~IsZero(RelT(a, b))
Epipolar == Bilin(Img(b, x), Fund(a, b), Img(a, x)) = 0
Rank2 == Det3(Fund(a, b)) = 0
\* a projection matrix determines its camera (up to the sign of its quaternion), up to scale
Determined == Proportional(Flat(PN(a)), Flat(PN(b))) => a.k = b.k /\ SameRot(a.q, b.q) /\ (a.t = b.t)
\* two views determine the point unless it lies on the line of the two centres
Triangulated == (Moved /\ x # y /\ SamePoint(Img(a, x), Img(a, y)) /\ SamePoint(Img(b, x), Img(b, y))) =>
                IsZero(MatVec(Fund(a, b), Img(a, x)))
FlipsRows == LET c == Cam(Flip(a.k, 7), a.q, a.t) i == Img(a, x) j == Img(c, x) IN i[3] = j[3] /\ i[1] = j[1] /\ j[2] = 6 * i[3] - i[2]
=============================================================================
