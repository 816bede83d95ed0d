------------------------------ MODULE Rotation ------------------------------
(* One rotation, held in one of many representations. Converting between    *)
(* representations never changes the rotation; composing with another       *)
(* rotation is the only thing that does.                                     *)
EXTENDS Lin
CONSTANT B          \* bound of the quaternion components in the model
VARIABLES q, rep
vars == <<q, rep>>
Reps == {"quat", "mat0", "mat3", "mat4", "aa4", "rv", "axang"}
\* the conversions the library offers
Conv == {<<"quat", "mat0">>, <<"mat0", "quat">>, <<"quat", "mat3">>, <<"mat3", "quat">>, <<"quat", "mat4">>, <<"mat4", "quat">>,
         <<"quat", "aa4">>, <<"aa4", "quat">>, <<"quat", "rv">>, <<"rv", "quat">>, <<"mat3", "aa4">>, <<"mat4", "aa4">>, <<"mat3", "rv">>, <<"mat4", "rv">>,
         <<"aa4", "mat3">>, <<"aa4", "mat4">>, <<"rv", "mat3">>, <<"rv", "mat4">>, <<"aa4", "rv">>, <<"rv", "aa4">>, <<"quat", "axang">>, <<"axang", "quat">>,
         <<"quat", "log">>, <<"log", "quat">>, <<"log", "aa4">>, <<"log", "mat3">>, <<"rv", "log">>}
From(r) == {c[2] : c \in {d \in Conv : d[1] = r}}
All == {p \in (-B..B) \X (-B..B) \X (-B..B) \X (-B..B) : \E i \in 1..4 : p[i] # 0}
Init == q \in {p \in All : Prim(p) = p} /\ rep = "quat"
Convert(r) == r \in From(rep) /\ rep' = r /\ UNCHANGED q
Next == \E r \in Reps \cup {"log"} : Convert(r)
Spec == Init /\ [][Next]_vars
\* the specification's own sanity: the matrix is a rotation, independent of the sign of the quaternion
N == QN(q)
Orthogonal == MatMul(RotM(q), Trans(RotM(q))) = MScale(N * N, Ident(3))
Proper == Det3(RotM(q)) = N * N * N
DoubleCover == RotM(VNeg(q)) = RotM(q)
KeepsAxis == MatVec(RotM(q), QIm(q)) = VScale(N, QIm(q))
TraceVal == RotM(q)[1][1] + RotM(q)[2][2] + RotM(q)[3][3] = 4 * q[4] * q[4] - N
Homomorphic == \A p \in {<<1, 0, 0, 1>>, <<1, -2, 0, 3>>} : RotM(QMul(q, p)) = MatMul(RotM(q), RotM(p))
ConvertKeeps == [][q' = q]_vars
\* every representation can be reached from every other
Reach == \A r \in Reps : From(r) # {}
=============================================================================
