-------------------------------- MODULE Alg --------------------------------
(* Linear algebra on fixed and dynamic vectors and matrices: the exact      *)
(* results of the kernels, and the text form.                               *)
EXTENDS Lin
Norm1(v) == Sum([i \in 1..Len(v) |-> Abs(v[i])])
\* row-major values as a matrix, and the column-major storage of one
FromRows(l, m, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> l[(i - 1) * n + j]]])
Stored(m) == Flat(Trans(m))
MConst(m, n, k) == TLCEval([i \in 1..m |-> [j \in 1..n |-> k]])
\* first difference decides
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)
\* (1 - n/d) a + n/d b, over d
Lerp(a, b, n, d) == VAdd(VScale(d - n, a), VScale(n, b))
\* a change of handedness: the third axis is turned round on both sides
FlipZ(m) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> IF (i = 3) = (j = 3) THEN m[i][j] ELSE -m[i][j]]])
\* the Moore-Penrose inverse of b c, both of full rank: a numerator and a denominator
PDen(b, c) == Det(MatMul(c, Trans(c))) * Det(MatMul(Trans(b), b))
PNum(b, c) == MatMul(MatMul(Trans(c), AdjN(MatMul(c, Trans(c)))), MatMul(AdjN(MatMul(Trans(b), b)), Trans(b)))
FullRank(b, c) == PDen(b, c) # 0
\* towards zero
Trunc(a, d) == IF a < 0 THEN -((-a) \div d) ELSE a \div d
\* text
RECURSIVE TextTo(_, _)
TextTo(v, k) == IF k = 0 THEN "" ELSE TextTo(v, k - 1) \o ToString(v[k]) \o " "
Text(v) == "[ " \o TextTo(v, Len(v)) \o "]"
RECURSIVE MTextTo(_, _)
MTextTo(m, k) == IF k = 0 THEN "" ELSE MTextTo(m, k - 1) \o Text(m[k]) \o "\n"
MText(m) == MTextTo(m, Len(m))
RECURSIVE LTextTo(_, _)
LTextTo(l, k) == IF k = 0 THEN "" ELSE LTextTo(l, k - 1) \o Text(l[k]) \o " "
LText(l) == "[ " \o LTextTo(l, Len(l)) \o "]"
=============================================================================
