------------------------------- MODULE AlgGen ------------------------------
(* Behaviours of a file of registers: two vectors of each length 1..5 and   *)
(* two matrices of each shape up to 4 x 4, in one precision.                *)
EXTENDS Alg, Gen
VARIABLES pr, vr, mr
R(lo, hi) == RandomElement(lo..hi)
The(S) == CHOOSE a \in S : TRUE
NV == 5
NM == 4
Small == 900
T(a, b, e) == Tol(IF pr = "d" THEN a ELSE b, e)
Rec(o, a, e) == Record(o, <<pr>> \o a, e)
Ent(h) == IF R(1, 6) = 1 THEN R(-900, 900) ELSE R(-5, 5)
GV(n, h) == TLCEval([i \in 1..n |-> Ent(h)])
GM(m, n, h) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Ent(h)]])
OkV(v) == MaxAbs(v) <= Small
OkM(m) == MaxAbs(Flat(m)) <= Small
PutV(n, s, v) == vr' = [vr EXCEPT ![n][s] = v] /\ UNCHANGED <<pr, mr>>
PutM(m, n, s, a) == mr' = [mr EXCEPT ![m][n][s] = a] /\ UNCHANGED <<pr, vr>>
Keep == UNCHANGED <<pr, vr, mr>>
\* setting and showing
DoSetV == \E n \in {R(1, NV)}, s \in {R(1, 2)}, w \in {RandomElement({"args", "array", "each", "zeros"})} : \E v \in {IF w = "zeros" THEN Zero(n) ELSE GV(n, hist)} :
            PutV(n, s, v) /\ Rec("setv", <<n, s, w>> \o v, <<>>)
DoSetM == \E m \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)}, w \in {RandomElement({"array", "each", "zeros", "ident"})} :
          \E a \in {CASE w = "zeros" -> MConst(m, n, 0) [] w = "ident" /\ m = n -> Ident(n) [] OTHER -> GM(m, n, hist)} :
            PutM(m, n, s, a) /\ Rec("setm", <<m, n, s, IF w = "ident" /\ m # n THEN "array" ELSE w>> \o Flat(a), <<>>)
DoShowV == \E n \in {R(1, NV)}, s \in {R(1, 2)} : Keep /\ Rec("showv", <<n, s>>, <<n>> \o vr[n][s] \o vr[n][s])
DoShowM == \E m \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)} : \E a \in {mr[m][n][s]} : Keep /\ Rec("showm", <<m, n, s>>, <<m, n>> \o Flat(a) \o Stored(a))
DoText == \E m \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)}, w \in {R(0, 1)} :
            /\ Keep
            /\ CASE R(1, 3) = 1 /\ OkV(vr[n][s]) -> Rec("textv", <<n, s, w>>, <<Text(vr[n][s])>>)
                 [] R(1, 2) = 1 /\ OkV(vr[n][1]) /\ OkV(vr[n][2]) -> Rec("textl", <<n>>, <<LText(vr[n])>>)
                 [] OkM(mr[m][n][s]) -> Rec("textm", <<m, n, s, w>>, <<MText(mr[m][n][s])>>)
                 [] OTHER -> Rec("showv", <<n, s>>, <<n>> \o vr[n][s] \o vr[n][s])
\* products into a register, through the returned value, an output argument or a list
DoMV == \E m \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)}, u \in {R(1, 2)}, t \in {R(1, 2)}, w \in {R(0, 3)} :
        \E a \in {mr[m][n][s]}, v \in {vr[n][u]} :
          IF ~(OkM(a) /\ OkV(v)) \/ (m = n /\ u = t) THEN DoSetV ELSE
             PutV(m, t, MatVec(a, v)) /\ Rec("mv", <<m, n, s, u, t, w>>, <<>>)
DoMM == \E m \in {R(1, NM)}, k \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)}, u \in {R(1, 2)}, t \in {R(1, 2)}, w \in {R(0, 3)} :
        \E a \in {mr[m][k][s]}, b \in {mr[k][n][u]} :
          IF ~(OkM(a) /\ OkM(b)) \/ (k = n /\ s = t) \/ (m = k /\ u = t) THEN DoSetM ELSE
             PutM(m, n, t, MatMul(a, b)) /\ Rec("mm", <<m, k, n, s, u, t, w>>, <<>>)
DoOuter == \E m \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)}, u \in {R(1, 2)}, t \in {R(1, 2)}, w \in {R(0, 4)} :
           \E a \in {vr[m][s]}, b \in {vr[n][u]} :
             IF ~(OkV(a) /\ OkV(b)) THEN DoSetV ELSE
                PutM(m, n, t, Outer(a, b)) /\ Rec("outer", <<m, n, s, u, t, w>>, <<>>)
DoCross == \E s \in {R(1, 2)}, u \in {R(1, 2)}, t \in {R(1, 2)} : IF ~(OkV(vr[3][s]) /\ OkV(vr[3][u])) THEN DoSetV ELSE
             PutV(3, t, Cross(vr[3][s], vr[3][u])) /\ Rec("cross", <<s, u, t>>, <<>>)
DoFlip == \E s \in {R(1, 2)} : PutM(4, 4, s, FlipZ(mr[4][4][s])) /\ Rec("flip", <<s>>, <<>>)
\* numbers; w: fixed, dynamic, or (distances) lists
DoNum == \E n \in {R(1, NV)}, s \in {R(1, 2)}, u \in {R(1, 2)}, w \in {R(0, 1)} : \E a \in {vr[n][s]}, b \in {vr[n][u]} :
         IF ~(OkV(a) /\ OkV(b)) THEN DoSetV ELSE Keep
         /\ \E o \in {RandomElement({"dot", "dot1", "norm1", "norm2", "dist", "sqdist", "dists", "norms", "normalize"})} :
            CASE o = "dot" -> Rec(o, <<n, s, u, w>>, <<Dot(a, b)>>)
              [] o = "dot1" -> Rec(o, <<n, s, w>>, <<Norm2(a)>>)
              [] o = "norm1" -> Rec(o, <<n, s, w>>, <<Norm1(a)>>)
              [] o = "norm2" -> Rec(o, <<n, s, w>>, <<T(9, 6, Fn("sqrt", <<Norm2(a)>>))>>)
              [] o = "dist" -> Rec(o, <<n, s, u, w>>, <<T(9, 6, Fn("sqrt", <<Norm2(VSub(a, b))>>))>>)
              [] o = "sqdist" -> Rec(o, <<n, s, u, w>>, <<Norm2(VSub(a, b))>>)
              [] o = "dists" -> Rec(o, <<n, s, u, w>>, <<2, T(9, 6, Fn("sqrt", <<Norm2(VSub(a, b))>>)), T(9, 6, Fn("sqrt", <<Norm2(VSub(b, a))>>)), 2, Norm2(VSub(a, b)), Norm2(VSub(b, a))>>)
              [] o = "norms" -> Rec(o, <<n, s, u, w>>, <<2, T(9, 6, Fn("sqrt", <<Norm2(a)>>)), T(9, 6, Fn("sqrt", <<Norm2(b)>>)), 2, Norm2(a), Norm2(b)>>)
              [] OTHER -> IF IsZero(a) THEN Rec("dot1", <<n, s, w>>, <<0>>)
                          ELSE Rec(o, <<n, s, w>>, TLCEval([i \in 1..n |-> T(9, 6, Fn("prod", <<a[i], Fn("inv", <<Fn("sqrt", <<Norm2(a)>>)>>)>>))]))
DoCmp == \E n \in {R(1, NV)}, m \in {R(1, NM)}, k \in {R(1, NM)}, s \in {R(1, 2)}, u \in {R(1, 2)} :
         /\ Keep
         /\ CASE R(1, 3) = 1 -> Rec("eqv", <<n, s, u>>, <<IF vr[n][s] = vr[n][u] THEN 1 ELSE 0>>)
              [] R(1, 2) = 1 -> Rec("less", <<n, s, u>>, <<IF Less(vr[n][s], vr[n][u]) THEN 1 ELSE 0>>)
              [] OTHER -> Rec("eqm", <<m, k, s, u>>, <<IF mr[m][k][s] = mr[m][k][u] THEN 1 ELSE 0>>)
\* a vector that differs from another in one entry only
DoNear == \E n \in {R(1, NV)}, s \in {R(1, 2)}, i \in {R(1, NV)}, k \in {R(-1, 1)} : \E v \in {TLCEval([j \in 1..n |-> IF j = i THEN vr[n][s][j] + k ELSE vr[n][s][j]])} :
            PutV(n, 3 - s, v) /\ Rec("setv", <<n, 3 - s, "array">> \o v, <<>>)
DoNearM == \E m \in {R(1, NM)}, n \in {R(1, NM)}, s \in {R(1, 2)}, i \in {R(1, NM)}, j \in {R(1, NM)} : \E a \in {TLCEval([p \in 1..m |-> [q \in 1..n |-> IF p = i /\ q = j THEN mr[m][n][s][p][q] + 1 ELSE mr[m][n][s][p][q]]])} :
            PutM(m, n, 3 - s, a) /\ Rec("setm", <<m, n, 3 - s, "each">> \o Flat(a), <<>>)
DoLerp == \E n \in {R(1, NV)}, s \in {R(1, 2)}, u \in {R(1, 2)}, t \in {R(-4, 12)} : IF ~(OkV(vr[n][s]) /\ OkV(vr[n][u])) THEN DoSetV ELSE Keep
            /\ Rec("lerp", <<n, s, u, Nx(t, 8)>>, <<T(9, 5, Vx(Lerp(vr[n][s], vr[n][u], t, 8), 8))>>)
\* determinants and inverses of small well-conditioned matrices
Sq(n, h) == TLCEval([i \in 1..n |-> [j \in 1..n |-> R(-4, 4)]])
DoDet == \E n \in {R(1, NM)}, w \in {R(0, 2)} : \E a \in {IF R(1, 5) = 1 THEN The({IF n = 1 THEN b ELSE [b EXCEPT ![n] = b[1]] : b \in {Sq(n, hist)}}) ELSE Sq(n, hist)} :
           Keep /\ Rec("det", <<n, w>> \o Flat(a), <<T(8, 4, Det(a))>>)
DoInv == \E n \in {R(1, NM)}, w \in {R(0, 2)} : \E a \in {Sq(n, hist)} : \E d \in {Det(a)} :
           IF Abs(d) < 1 THEN DoDet ELSE Keep /\ Rec("inv", <<n, w>> \o Flat(a), <<T(8, 2, Vx(TLCEval([i \in 1..(n * n) |-> IF d < 0 THEN -Flat(AdjN(a))[i] ELSE Flat(AdjN(a))[i]]), Abs(d)))>>)
Fac(m, n, h) == TLCEval([i \in 1..m |-> [j \in 1..n |-> R(-2, 2)]])
DoPinv == \E m \in {R(1, NM)}, n \in {R(1, NM)}, w \in {R(0, 1)} : \E r \in {R(0, Min2(3, Min2(m, n)))} :
           IF r = 0 THEN Keep /\ Rec("pinv", <<m, n, w>> \o Zero(m * n), Zero(m * n))
           ELSE \E b \in {Fac(m, r, hist)}, c \in {Fac(r, n, hist)} : \E d \in {PDen(b, c)} :
                IF d = 0 THEN Keep /\ Rec("pinv", <<m, n, w>> \o Zero(m * n), Zero(m * n))
                ELSE Keep /\ Rec("pinv", <<m, n, w>> \o Flat(MatMul(b, c)), <<T(7, 2, Mx(PNum(b, c), d))>>)
\* conversions: numbers with a fraction to integers, rotations and poses to vectors
DoCast == \E n \in {R(1, NV)}, k \in {R(1, 2)} : \E v \in {TLCEval([i \in 1..n |-> R(-20, 20)])} : Keep
            /\ Rec("cast", <<n, Vx(v, 4)>>, TLCEval([i \in 1..n |-> Trunc(v[i], 4)]) \o <<Vx(v, 4)>> \o TLCEval([i \in 1..n |-> Trunc(v[i], 4)]))
DoRms == \E n \in {R(1, 4)} : \E a \in {TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(0, 50) ELSE R(-9, 9)]])} : Keep
            /\ Rec("rms", <<n>> \o Flat(a), <<T(9, 6, Fn("sqrt", <<Sum([i \in 1..n |-> a[i][i]])>>))>>)
DoDyn == \E m \in {R(0, 5)}, n \in {R(0, 5)}, k \in {R(-9, 9)} : Keep
            /\ Rec("dyn", <<m, n, k>>, <<m, m * n>> \o Zero(m) \o Zero(m * n) \o TLCEval([i \in 1..(m * n) |-> k]) \o Flat(Ident(m)))
GenInit == GenStart /\ pr = RandomElement({"d", "f"})
           /\ vr = [n \in 1..NV |-> [s \in 1..2 |-> Zero(n)]]
           /\ mr = [m \in 1..NM |-> [n \in 1..NM |-> [s \in 1..2 |-> MConst(m, n, 0)]]]
GenNext == IF ~More THEN Finish /\ Keep
           ELSE \E w \in {R(1, 30)} :
             CASE w <= 4 -> DoSetV [] w <= 8 -> DoSetM [] w = 9 -> DoShowV [] w = 10 -> DoShowM [] w = 11 -> DoText
               [] w <= 13 -> DoMV [] w <= 15 -> DoMM [] w = 16 -> DoOuter [] w = 17 -> DoCross [] w = 18 -> DoFlip
               [] w <= 20 -> DoNum [] w = 21 -> DoCmp [] w = 22 -> (IF R(1, 2) = 1 THEN DoNear ELSE DoNearM) [] w = 23 -> DoLerp
               [] w = 24 -> DoDet [] w <= 26 -> DoInv [] w <= 28 -> DoPinv [] w = 29 -> DoCast [] OTHER -> (IF R(1, 2) = 1 THEN DoRms ELSE DoDyn)
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted, pr, vr, mr>>
=============================================================================
