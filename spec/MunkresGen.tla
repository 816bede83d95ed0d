----------------------------- MODULE MunkresGen -----------------------------
(* Cost matrices with a planted optimal assignment (and its certificate):   *)
(* c[i][j] = u[i] + v[j] + s[i][j], slack s >= 0, zero on the planted one;  *)
(* columns (rows) that stay unmatched have potential 0, others at most 0.   *)
EXTENDS Lin, Gen
VARIABLES best, rows, cols
R(a, b) == RandomElement(a..b)
RECURSIVE RandPerm(_, _)
RandPerm(S, h) == IF S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN <<x>> \o RandPerm(S \ {x}, h)
Seqn(n, a, b) == TLCEval([i \in 1..n |-> R(a, b)])
DoSet == \E r \in {R(1, 8)}, d \in {RandomElement({0, 0, 0, 1, 2, 3})}, tr \in BOOLEAN, den \in {RandomElement({1, 1, 3, 7})}, mx \in {RandomElement({0, 1, 3, 30, 1000})}, off \in {RandomElement({0, 0, -20, 500})}, ty \in {RandomElement({"set", "setf", "seti"})} :
  \E p \in {RandPerm(1..(r + d), hist)}, u \in {Seqn(r, off, off + mx)}, s \in {[i \in 1..r |-> Seqn(r + d, 0, RandomElement({0, 1, mx, mx}))]} :
  \E inv \in {[j \in 1..(r + d) |-> IF \E i \in 1..r : p[i] = j THEN CHOOSE i \in 1..r : p[i] = j ELSE 0]} :
  \E v \in {TLCEval([j \in 1..(r + d) |-> IF d > 0 /\ inv[j] = 0 THEN 0 ELSE IF d > 0 THEN R(-mx, 0) ELSE R(-mx, mx)])} :
  \E c \in {TLCEval([i \in 1..r |-> [j \in 1..(r + d) |-> u[i] + v[j] + (IF p[i] = j THEN 0 ELSE s[i][j])]])} :
   LET k == tr /\ d > 0
       w == IF k THEN Trans(c) ELSE c
       dn == IF ty = "seti" THEN 1 ELSE den IN
     /\ best' = <<Sum(u) + Sum([j \in 1..(r + d) |-> IF inv[j] = 0 THEN 0 ELSE v[j]]), dn>>
     /\ rows' = Rows(w) /\ cols' = Cols(w)
     /\ Record(ty, <<Rows(w), Cols(w)>> \o <<Mx(w, dn)>>, <<>>)
DoAsk == \E o \in {RandomElement({"rows", "cols", "mask"})} :
   UNCHANGED <<best, rows, cols>> /\ Record(o, <<>>, <<Max2(rows, cols), 1, Min2(rows, cols), Tol(IF best[2] = 1 THEN 9 ELSE 4, Nx(best[1], best[2]))>>)
GenNext == \/ More /\ (IF hist = <<>> THEN DoSet ELSE \E c \in {R(1, 3)} : IF c = 1 THEN DoSet ELSE DoAsk)
           \/ ~More /\ Finish /\ UNCHANGED <<best, rows, cols>>
GenSpec == best = <<0, 1>> /\ rows = 0 /\ cols = 0 /\ GenStart /\ [][GenNext]_<<best, rows, cols, hist, emitted>>
=============================================================================
