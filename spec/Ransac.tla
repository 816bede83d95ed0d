-------------------------------- MODULE Ransac --------------------------------
(* Random sample consensus as a monitor: RStep(c, s, e) is the state after    *)
(* event e, or Bad. c: number of values n, size of the sample sz, required    *)
(* inliers mn, least and most number of runs lo, hi, whether a value may be   *)
(* drawn twice. Events: an estimate from a list of values (ok or not), the    *)
(* evaluation of one value (inlier or not), the return of the result. A run    *)
(* whose estimate fails never ends the search; if the estimate from all        *)
(* inliers fails the caller is told (0 inliers, or the exception: -1).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bad == [ph |-> "bad"]
RInit == [ph |-> "idle", runs |-> 0, i |-> 0, inl |-> <<>>, best |-> <<>>, fin |-> 0, lf |-> FALSE]
Good(c, s) == Len(s.best) >= c.mn
Closed(c, s) == IF s.ph # "eval" THEN s ELSE
   [s EXCEPT !.ph = "idle", !.runs = @ + 1, !.lf = FALSE, !.best = IF Len(s.inl) >= c.mn /\ Len(s.inl) > Len(@) THEN s.inl ELSE @]
\* all values evaluated, or no chance any more of enough inliers
MayClose(c, s) == s.ph = "idle" \/ (s.ph = "eval" /\ (s.i = c.n \/ Len(s.inl) + (c.n - s.i) < c.mn))
Done(c, s) == s.runs >= c.hi \/ (Good(c, s) /\ s.runs >= c.lo /\ ~s.lf)
Sample(c, ids) == Len(ids) = c.sz /\ (\A k \in 1..Len(ids) : ids[k] \in 1..c.n) /\ (c.twice \/ Cardinality({ids[k] : k \in 1..Len(ids)}) = c.sz)
Est(c, s, e) == IF ~MayClose(c, s) THEN Bad ELSE LET t == Closed(c, s) IN
   IF ~Done(c, t) THEN (IF ~Sample(c, e.ids) THEN Bad ELSE IF e.h = 0 THEN [t EXCEPT !.runs = @ + 1, !.lf = TRUE] ELSE [t EXCEPT !.ph = "eval", !.i = 0, !.inl = <<>>])
   ELSE IF Good(c, t) /\ e.ids = t.best THEN [t EXCEPT !.ph = "final", !.fin = e.h] ELSE Bad
Ev(c, s, e) == IF s.ph # "eval" \/ e.v # s.i + 1 THEN Bad ELSE [s EXCEPT !.i = @ + 1, !.inl = IF e.in THEN Append(@, e.v) ELSE @]
Ret(c, s, e) == IF s.ph = "final" THEN (IF s.fin = 0 THEN (IF e.n = (IF c.twice THEN -1 ELSE 0) THEN [s EXCEPT !.ph = "end"] ELSE Bad) ELSE IF e.n = Len(s.best) /\ e.res = s.fin /\ (e.flags = <<>> \/ e.flags = s.best) THEN [s EXCEPT !.ph = "end"] ELSE Bad)
   ELSE IF ~MayClose(c, s) THEN Bad ELSE LET t == Closed(c, s) IN IF Done(c, t) /\ ~Good(c, t) /\ e.n = 0 /\ e.res = 0 - 7 THEN [t EXCEPT !.ph = "end"] ELSE Bad
RStep(c, s, e) == CASE s.ph \in {"bad", "end"} -> Bad [] e.e = "est" -> Est(c, s, e) [] e.e = "eval" -> Ev(c, s, e) [] OTHER -> Ret(c, s, e)
RECURSIVE RunTo(_, _, _)
RunTo(c, tr, k) == IF k = 0 THEN RInit ELSE LET s == TLCEval(RunTo(c, tr, k - 1)) IN IF s.ph = "bad" THEN Bad ELSE TLCEval(RStep(c, s, tr[k]))
Accepts(c, tr) == RunTo(c, tr, Len(tr)).ph = "end"
=============================================================================
