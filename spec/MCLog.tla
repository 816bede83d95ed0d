------------------------------- MODULE MCLog --------------------------------
(* Priorities are cached in every category and pushed down when they change *)
(* (setting one updates the subtree up to categories that have their own);  *)
(* the cache is always the priority of the nearest category that has one.   *)
(* Appenders that are attached are never deleted ones, have at most one     *)
(* owner, and get an event once for each category on the additive path.     *)
EXTENDS Log
CONSTANTS Cs, Ps
VARIABLES cats, cache, live
vars == <<cats, cache, live>>
AA == {1, 2}
Init == cats = Create(NoCats, 1) /\ cache = [c \in 1..NC |-> IF c = 1 THEN 600 ELSE NOTSET] /\ live = [a \in AA |-> TRUE]
\* creation caches the priority of the parent, outermost first
RECURSIVE CacheNew(_, _, _)
CacheNew(ca, cs, c) == IF c = 1 \/ cs[c].ex THEN ca ELSE LET up == CacheNew(ca, cs, Par(c)) IN [up EXCEPT ![c] = up[Par(c)]]
\* pushing down: categories whose path to c has no priority of its own
Pushed(cs, c) == {d \in 1..NC : c \in Up(d) /\ cs[d].ex /\ \A e \in Up(d) \ Up(c) : cs[e].p = NOTSET}
Named(c) == Create(cats, c)
Get(c) == cats' = Named(c) /\ cache' = CacheNew(cache, cats, c) /\ UNCHANGED live
Set(c, p) == /\ ~(c = 1 /\ p = NOTSET)
             /\ cats' = SetPrio(Named(c), c, p)
             /\ LET ca == CacheNew(cache, cats, c) v == IF p = NOTSET THEN ca[Par(c)] ELSE p
                IN  cache' = [d \in 1..NC |-> IF d = c \/ d \in Pushed(cats, c) THEN v ELSE ca[d]]
             /\ UNCHANGED live
Additive(c, b) == cats' = [Named(c) EXCEPT ![c].add = b] /\ cache' = CacheNew(cache, cats, c) /\ UNCHANGED live
Put(c, a, own) == /\ live[a] /\ ~Owned(cats, a) /\ (own => Attached(cats, a) = {})
                  /\ cats' = Attach(Named(c), c, a, own) /\ cache' = CacheNew(cache, cats, c) /\ UNCHANGED live
Take(c, a) == cats' = Detach(cats, c, a) /\ live' = [live EXCEPT ![a] = @ /\ a \notin cats[c].own] /\ UNCHANGED cache
TakeAll(c) == cats' = DetachAll(cats, c) /\ live' = [a \in AA |-> live[a] /\ a \notin cats[c].own] /\ UNCHANGED cache
New(a) == ~live[a] /\ live' = [live EXCEPT ![a] = TRUE] /\ UNCHANGED <<cats, cache>>
Next == \/ \E c \in Cs : Get(c) \/ TakeAll(c) \/ (\E p \in Ps : Set(c, p)) \/ (\E b \in BOOLEAN : Additive(c, b))
        \/ \E c \in Cs, a \in AA : Take(c, a) \/ \E own \in BOOLEAN : Put(c, a, own)
        \/ \E a \in AA : New(a)
Spec == Init /\ [][Next]_vars
CacheOk == \A c \in 1..NC : cats[c].ex => cache[c] = Eff(cats, c)
TreeOk == \A c \in 1..NC : cats[c].ex => \A d \in Up(c) : cats[d].ex
OwnOk == \A a \in AA : /\ Cardinality({c \in 1..NC : a \in cats[c].own}) <= 1
                       /\ (Attached(cats, a) # {} => live[a]) /\ (Owned(cats, a) => Cardinality(Attached(cats, a)) = 1)
\* the additive path: from the category up to the first that is not additive
OnPath(c) == {d \in Up(c) : \A e \in Up(c) \ Up(d) : cats[e].add}
TimesOk == \A c \in 1..NC, a \in AA : cats[c].ex => Times(cats, c, a) = Cardinality(Attached(cats, a) \cap OnPath(c))
EffOk == \A c \in 1..NC : cats[c].ex => LET set == {d \in Up(c) : cats[d].p # NOTSET} IN
           /\ set # {} /\ \E d \in set : Eff(cats, c) = cats[d].p /\ \A e \in set : e \in Up(d)
Inv == CacheOk /\ TreeOk /\ OwnOk /\ TimesOk /\ EffOk
=============================================================================
