------------------------------ MODULE PoseEst ------------------------------
(* Pose of a known body from its images: the image of a body point under    *)
(* pose and camera, the squared reprojection error, and the information     *)
(* matrix of the pose (inverse covariance for unit image noise). The pose   *)
(* rotations here are those of the cube, so that everything stays integer.  *)
EXTENDS Camera
RI(q) == The({TLCEval([i \in 1..3 |-> VDiv(m[i], QN(q))]) : m \in {RotM(q)}})
Move(q, t, p) == VAdd(MatVec(RI(q), p), t)
Back(q, t, y) == MatVec(Trans(RI(q)), VSub(y, t))
\* a camera as a 3x4 integer matrix
C33(c) == [i \in 1..3 |-> SubSeq(c[i], 1, 3)]
Proj(c, q, t, p) == The({MatVec(c, Hom(y)) : y \in {Move(q, t, p)}})
\* derivative of the moved point by (e_t, e_r): the identity and R 2 (u_j x p)
Unit(j) == [i \in 1..3 |-> IF i = j THEN 1 ELSE 0]
DMove(q, p) == The({Trans([j \in 1..6 |-> IF j <= 3 THEN Unit(j) ELSE VScale(2, MatVec(r, Cross(Unit(j - 3), p)))]) : r \in {RI(q)}})
\* derivative of the image times h3^2
DImg(c, q, t, p) == The({MatMul(<< <<h[3], 0, -h[1]>>, <<0, h[3], -h[2]>> >>, MatMul(C33(c), d)) : h \in {Proj(c, q, t, p)}, d \in {DMove(q, p)}})
\* information of the observations obs = <<<<point, camera>>, ..>>, all at depth 1 or 2, times 16
RECURSIVE MSum(_, _)
MSum(f, k) == IF k = 1 THEN f[1] ELSE The({MAdd(m, f[k]) : m \in {MSum(f, k - 1)}})
Info16(cams, q, t, obs) == The({MSum(f, Len(f)) : f \in {TLCEval([k \in 1..Len(obs) |->
   The({MScale(IF h = 1 THEN 16 ELSE 1, MatMul(Trans(j), j)) : j \in {DImg(cams[obs[k][2]], q, t, obs[k][1])}, h \in {Proj(cams[obs[k][2]], q, t, obs[k][1])[3]}})])}})
\* squared reprojection error times 4, for images u (integer) and depths 1 or 2
Err4(c, q, t, ps, us) == Sum([k \in 1..Len(ps) |-> The({(4 \div (h[3] * h[3])) * ((h[1] - h[3] * us[k][1]) * (h[1] - h[3] * us[k][1]) + (h[2] - h[3] * us[k][2]) * (h[2] - h[3] * us[k][2])) : h \in {Proj(c, q, t, ps[k])}})])
K34(k) == [i \in 1..3 |-> Append(KM(k)[i], 0)]
CamM(k, q, t) == The({TLCEval([i \in 1..3 |-> Append(m[i], MatVec(KM(k), t)[i])]) : m \in {MatMul(KM(k), RI(q))}})
=============================================================================
