---------------------------- MODULE RotationGen ----------------------------
EXTENDS Rotation, Gen
R(a, b) == RandomElement(a..b)
\* all regions: the cube group, exact half turns, nearly half turns, nearly no turn, generic
Gq(h) == LET c == R(1, 8) IN
   IF c = 1 THEN RandomElement(Octa)
   ELSE IF c = 2 THEN <<R(-5, 5), R(-5, 5), R(1, 5), 0>>
   ELSE IF c = 3 THEN <<R(-900, 900), R(-900, 900), RandomElement({-700, 500, 900}), RandomElement({-1, 1})>>
   ELSE IF c = 4 THEN <<R(-1, 1), R(-1, 1), R(-1, 1), RandomElement({100, 300, 1000, 5000, 20000})>>
   ELSE IF c = 5 THEN <<R(-30, 30), R(-30, 30), R(-30, 30), R(1, 30)>>
   ELSE IF c = 6 THEN QId
   ELSE IF c = 7 THEN RandomElement({<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, -1, 0, 0>>, <<-1, 0, 1, 0>>, <<0, -1, 1, 0>>, <<1, -1, 1, 0>>, <<-1, 1, 1, 0>>, <<1, 1, -1, 0>>})
   ELSE <<R(-9, 9), R(-9, 9), R(-9, 9), R(-9, -1)>>
Mat(p) == Mx(RotM(p), QN(p))
DoSet == \E p \in {Gq(hist)} : q' = Prim(p) /\ rep' = "quat" /\ Record("set", <<[qs |-> Prim(p)]>>, <<Tol(9, Mat(Prim(p)))>>)
DoConvert == \E r \in {RandomElement(From(rep))} : \E f \in {R(1, 8)} :
   /\ Convert(r)
   /\ Record("convert", <<r>>, <<Tol(6, Mat(q))>>)
\* single precision: an observation beside the walk
DoFloat == \E r \in {RandomElement(From(rep))} :
   /\ UNCHANGED vars /\ Record("float", <<r>>, <<Tol(2, Mat(q))>>)
Small == MaxAbs(q) <= 500
\* sine of the middle angle, over N, of the Euler sequences; a gimbal lock region is left out of the tight comparison
Seqs == <<"XYZ", "YZX", "ZXY", "ZYX", "XZY", "YXZ">>
Mid(s) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
   CASE s = 1 -> 2 * (w * y - x * z) [] s = 2 -> 2 * (w * z - y * x) [] s = 3 -> 2 * (w * x - z * y)
     [] s = 4 -> 2 * (w * y + z * x) [] s = 5 -> 2 * (w * z + x * y) [] s = 6 -> 2 * (w * x + y * z)
DoEuler == \E s \in {R(1, 6)} :
   IF Small /\ rep = "quat" /\ N <= 2000000
   THEN LET m == Abs(Mid(s)) IN
        UNCHANGED vars /\ Record("euler", <<s>>, <<Tol(IF m = N THEN 6 ELSE IF m * 1000 > 997 * N THEN 1 ELSE 6, Mat(q))>>)
   ELSE DoSet
DoEulerZ == IF rep = "quat" THEN UNCHANGED vars /\ Record("eulerzyx", <<>>, <<Tol(4, Mat(q))>>) ELSE DoSet
\* the angle lies between no and half a turn
DoAngle == IF rep = "quat" THEN UNCHANGED vars /\ Record("angle", <<>>, <<Nx(2 * q[4] * q[4] - N, N), 1>>) ELSE DoSet
\* construction from an axis of any length and an angle
DoAxis == \E v \in {<<R(-5, 5), R(-5, 5), R(1, 5)>>}, k \in {R(0, 7)}, w \in {R(-7, 7)}, m \in {RandomElement({1, 3, 100})} :
   IF k = 0 /\ w = 0 THEN DoSet
   ELSE LET p == Prim(<<k * v[1], k * v[2], k * v[3], w>>) IN
        q' = p /\ rep' = "quat" /\ Record("axis", <<Vx(v, 1), k, w, m>>, <<Tol(9, Mat(p))>>)
DoMul == \E p \in {Gq(hist)} :
   IF rep = "quat" /\ MaxAbs(q) <= 30 /\ MaxAbs(p) <= 30
   THEN q' = QM(q, p) /\ UNCHANGED rep /\ Record("mul", <<[qs |-> p]>>, <<Tol(6, Mat(QM(q, p)))>>) ELSE DoSet
\* velocities: the rotation between two orientations per interval
DoVel == \E u \in {<<R(-3, 3), R(-3, 3), R(-3, 3), R(1, 6)>>}, s \in {R(0, 1)}, n \in {R(1, 9)}, d \in {R(1, 9)} : \E k \in {R(0, 3)} :
   IF rep = "quat" /\ MaxAbs(q) <= 12
   THEN UNCHANGED vars /\ Record("velocity", <<IF s = 1 THEN [qs |-> VNeg(QMul(q, u))] ELSE [qs |-> QMul(q, u)], Nx(n, d), k>>,
          <<Tol(7, Qx(QMul(q, QPow(u, k)))), Tol(7, Nx(2 * u[4] * u[4] - QN(u), QN(u))), Tol(6, Mat(u))>>)
   ELSE DoSet
\* the rotation that leads from an orientation to itself
DoSelf == IF rep = "quat" THEN UNCHANGED vars /\ Record("self", <<>>, <<Tol(6, 0), Tol(6, Mat(QId)), Tol(6, Mat(QId)), Tol(6, Mat(QId))>>) ELSE DoSet
Do == \E c \in {R(1, 24)} :
   CASE c <= 3 -> DoSet [] c <= 11 -> DoConvert [] c = 12 -> DoFloat [] c <= 15 -> DoEuler [] c = 16 -> DoEulerZ [] c = 17 -> DoAngle
     [] c <= 19 -> DoAxis [] c = 20 -> DoMul [] c <= 22 -> DoVel [] c = 23 -> DoSelf [] OTHER -> DoSet
GenNext == \/ More /\ Do
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == q = QId /\ rep = "quat" /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
