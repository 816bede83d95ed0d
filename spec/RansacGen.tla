------------------------------ MODULE RansacGen ------------------------------
(* Scenarios: what the estimator and the evaluator answer is a table.         *)
EXTENDS Ransac, Gen
R(lo, hi) == RandomElement(lo..hi)
\* kind 1, 2: generic versions with one and two lists, 3: the version with runs bounded from below that may draw twice, 4: the same with flags
DoR == \E kind \in {R(1, 4)}, n \in {R(2, 7)}, hyp \in {R(1, 4)}, dense \in {R(1, 9)} : \E sz \in {R(1, n)}, mn \in {R(1, n)}, hi \in {R(1, 6)}, lo \in {R(0, 4)} :
   Record("ransac", <<kind, n, sz, mn, IF kind <= 2 THEN 0 ELSE lo, hi, R(0, 9999), hyp>>
      \o TLCEval([k \in 1..hyp |-> IF R(1, 6) = 1 THEN 0 ELSE 1]) \o TLCEval([k \in 1..(hyp * n) |-> IF R(0, 9) < dense THEN 1 ELSE 0]), <<>>)
GenNext == \/ More /\ DoR
           \/ ~More /\ Finish
GenSpec == GenStart /\ [][GenNext]_<<hist, emitted>>
=============================================================================
