------------------------------- MODULE MCRansac -------------------------------
EXTENDS Ransac
VARIABLES c, s, last
vars == <<c, s, last>>
Confs == {[n |-> 3, sz |-> 2, mn |-> m, lo |-> lo, hi |-> hi, twice |-> tw] : m \in 1..3, lo \in 0..2, hi \in 1..2, tw \in BOOLEAN}
Events == {[e |-> "est", ids |-> i, h |-> h] : i \in {<<a, b>> : a, b \in 1..3} \cup {<<1>>, <<2>>, <<3>>, <<1, 2, 3>>}, h \in {0, 1}} \cup {[e |-> "eval", v |-> v, in |-> b] : v \in 1..3, b \in BOOLEAN}
          \cup {[e |-> "ret", n |-> n, res |-> r, flags |-> f] : n \in -1..3, r \in {0, 1, 0 - 7}, f \in {<<>>, <<1, 2>>}}
Init == c \in Confs /\ s = RInit /\ last = [e |-> "none"]
Next == s.ph # "bad" /\ UNCHANGED c /\ \E e \in Events : LET t == RStep(c, s, e) IN t.ph # "bad" /\ s' = t /\ last' = e
Spec == Init /\ [][Next]_vars
\* a result is reported exactly if some run had enough inliers, it is the estimate of all of them, and never after more runs than allowed
Reported == s.ph = "end" => (last.n > 0 => last.n = Len(s.best) /\ last.n >= c.mn /\ last.res = s.fin) /\ (last.n <= 0 => s.fin = 0) /\ (s.best = <<>> => s.runs = c.hi /\ last.n = 0)
Bounded == s.runs <= c.hi
NotStuck == s.ph \notin {"end", "bad"} => \E e \in Events : RStep(c, s, e).ph # "bad"
=============================================================================
