------------------------------ MODULE Munkres ------------------------------
(* The assignment problem and Munkres' algorithm for it: costs, stars,      *)
(* primes and covers, one action per step of the algorithm. Checked for     *)
(* every cost matrix: it terminates, and what it terminates with is a       *)
(* minimal complete matching.                                               *)
EXTENDS Lin
CONSTANTS N, MaxCost
VARIABLES cost, m, star, prime, rc, cc, pc, at
vars == <<cost, m, star, prime, rc, cc, pc, at>>
I == 1..N
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Init == /\ cost \in [I -> [I -> 0..MaxCost]]
        /\ m = [i \in I |-> [j \in I |-> cost[i][j] - MinOf({cost[i][k] : k \in I})]]
        /\ star = {} /\ prime = {} /\ rc = {} /\ cc = {} /\ pc = "star" /\ at = <<1, 1>>
\* a maximal set of independent zeros, greedily
Star == /\ pc = "star"
        /\ LET free == {z \in I \X I : m[z[1]][z[2]] = 0 /\ \A s \in star : s[1] # z[1] /\ s[2] # z[2]} IN
           IF free = {} THEN pc' = "cover" /\ UNCHANGED star ELSE \E z \in free : star' = star \cup {z} /\ UNCHANGED pc
        /\ UNCHANGED <<cost, m, prime, rc, cc, at>>
Cover == /\ pc = "cover" /\ cc' = {s[2] : s \in star}
         /\ pc' = IF Cardinality(star) = N THEN "done" ELSE "search"
         /\ UNCHANGED <<cost, m, star, prime, rc, at>>
Search == /\ pc = "search"
          /\ LET zs == {z \in I \X I : z[1] \notin rc /\ z[2] \notin cc /\ m[z[1]][z[2]] = 0} IN
             IF zs = {} THEN pc' = "shift" /\ UNCHANGED <<prime, rc, cc, at>>
             ELSE \E z \in zs : /\ prime' = prime \cup {z} /\ at' = z
                                /\ IF \E s \in star : s[1] = z[1]
                                   THEN rc' = rc \cup {z[1]} /\ cc' = cc \ {s[2] : s \in {t \in star : t[1] = z[1]}} /\ UNCHANGED pc
                                   ELSE pc' = "augment" /\ UNCHANGED <<rc, cc>>
          /\ UNCHANGED <<cost, m, star>>
RECURSIVE Path(_)
Path(z) == LET s == {t \in star : t[2] = z[2]} IN
   IF s = {} THEN {z} ELSE LET t == CHOOSE t \in s : TRUE IN {z, t} \cup Path(CHOOSE p \in prime : p[1] = t[1])
Augment == /\ pc = "augment"
           /\ LET p == Path(at) IN star' = (star \ p) \cup (p \ star)
           /\ prime' = {} /\ rc' = {} /\ cc' = {} /\ pc' = "cover"
           /\ UNCHANGED <<cost, m, at>>
Shift == /\ pc = "shift"
         /\ LET h == MinOf({m[z[1]][z[2]] : z \in (I \ rc) \X (I \ cc)}) IN
            m' = [i \in I |-> [j \in I |-> m[i][j] + (IF i \in rc THEN h ELSE 0) - (IF j \notin cc THEN h ELSE 0)]]
         /\ pc' = "search"
         /\ UNCHANGED <<cost, star, prime, rc, cc, at>>
Next == Star \/ Cover \/ Search \/ Augment \/ Shift \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Matching(s) == \A a, b \in s : a # b => a[1] # b[1] /\ a[2] # b[2]
Perms == {f \in [I -> I] : \A a, b \in I : a # b => f[a] # f[b]}
CostOf(f) == Sum([i \in I |-> cost[i][f[i]]])
Best == MinOf({CostOf(f) : f \in Perms})
Independent == Matching(star)
Reduced == \A i, j \in I : m[i][j] >= 0
StarsZero == \A s \in star \cup prime : m[s[1]][s[2]] = 0
Optimal == pc = "done" => /\ Cardinality(star) = N
                          /\ Sum([i \in I |-> LET s == CHOOSE s \in star : s[1] = i IN cost[i][s[2]]]) = Best
Terminates == <>(pc = "done")
\* planted potentials certify the minimum: what the generator of behaviours relies on
Certified == \A f \in Perms : (\E u, v \in [I -> -1..1] : (\A i, j \in I : cost[i][j] >= u[i] + v[j]) /\ (\A i \in I : cost[i][f[i]] = u[i] + v[f[i]])) => CostOf(f) = Best
=============================================================================
