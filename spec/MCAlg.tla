------------------------------- MODULE MCAlg -------------------------------
(* Exhaustive laws of the algebra on small matrices: the Moore-Penrose      *)
(* conditions, inverses, determinants, products, orders, handedness.        *)
EXTENDS Alg
CONSTANT B
VARIABLES m, b, c, x, y, z
vars == <<m, b, c, x, y, z>>
V(n) == IF n = 1 THEN {<<i>> : i \in -B..B} ELSE IF n = 2 THEN (-B..B) \X (-B..B) ELSE (-B..B) \X (-B..B) \X (-B..B)
M22 == {<<<<p[1], p[2]>>, <<q[1], q[2]>>>> : p, q \in V(2)}
No == <<>>
Init == /\ \/ /\ m \in M22 /\ b = No /\ c = No /\ x \in V(2) /\ y \in V(2) /\ z \in V(2)
           \/ /\ m = No /\ b \in {<<<<p[1]>>, <<p[2]>>>> : p \in V(2)} /\ c \in {<<p>> : p \in V(3)} /\ x = No /\ y = No /\ z = No
           \/ /\ m = No /\ b \in {<<<<p[1], p[2]>>, <<q[1], q[2]>>, <<1, -1>>>> : p, q \in V(2)} /\ c \in M22 /\ x = No /\ y = No /\ z = No
           \/ /\ m \in {<<p, q, r>> : p, q, r \in {v \in V(3) : v[1] # -1}} /\ b = No /\ c = No /\ x = No /\ y = No /\ z = No
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* A = b c, P / d its pseudo-inverse
Pinv == b # No /\ FullRank(b, c) =>
   \E a \in {MatMul(b, c)} : \E p \in {PNum(b, c)} : \E d \in {PDen(b, c)} :
     /\ MatMul(MatMul(a, p), a) = MScale(d, a)
     /\ MatMul(MatMul(p, a), p) = MScale(d, p)
     /\ Trans(MatMul(a, p)) = MatMul(a, p)
     /\ Trans(MatMul(p, a)) = MatMul(p, a)
Adj == m # No => MatMul(AdjN(m), m) = MScale(Det(m), Ident(Len(m))) /\ MatMul(m, AdjN(m)) = MScale(Det(m), Ident(Len(m)))
Dets == m # No => Det(Trans(m)) = Det(m) /\ (Len(m) = 3 => Det(m) = Det3(m)) /\ (Len(m) = 2 => Det(m) = Det2(m))
                  /\ (x # No => Det(MatMul(m, <<x, y>>)) = Det(m) * Det(<<x, y>>))
Prods == x # No => /\ MatVec(m, VAdd(x, y)) = VAdd(MatVec(m, x), MatVec(m, y))
                   /\ Dot(MatVec(m, x), y) = Dot(x, MatVec(Trans(m), y))
                   /\ MatVec(Outer(x, y), z) = VScale(Dot(y, z), x)
                   /\ Dot(x, y) * Dot(x, y) <= Norm2(x) * Norm2(y) /\ Norm2(x) <= Norm1(x) * Norm1(x)
                   /\ FromRows(Flat(m), 2, 2) = m /\ Stored(m) = <<m[1][1], m[2][1], m[1][2], m[2][2]>>
Orders == x # No => /\ (Less(x, y) /\ Less(y, z) => Less(x, z)) /\ ~(Less(x, y) /\ Less(y, x)) /\ (x = y \/ Less(x, y) \/ Less(y, x))
                    /\ Lerp(x, y, 0, 3) = VScale(3, x) /\ Lerp(x, y, 3, 3) = VScale(3, y) /\ Lerp(x, y, 1, 3) = Lerp(y, x, 2, 3)
Inv == Pinv /\ Adj /\ Dets /\ Prods /\ Orders
=============================================================================
