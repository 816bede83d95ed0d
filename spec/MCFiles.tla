------------------------------ MODULE MCFiles -------------------------------
(* The abstract files against their tokens under every sequence of writes,  *)
(* truncations, copies and removals; listings against their definition.     *)
EXTENDS Files
VARIABLES fs, raw, dir, lst
vars == <<fs, raw, dir, lst>>
F == {1, 2}
Values == {<<"int", <<3>>>>, <<"int", <<4>>>>, <<"vec3", <<1, 2, 3>>>>, <<"list", <<>>>>, <<"list", <<5, 6>>>>}
Init == fs = [f \in F |-> None] /\ raw = [f \in F |-> <<"nofile">>] /\ dir \in [{1, 2, 6} -> {"no", "file", "dir", "dead"}] /\ lst = <<>>
W(f, form, v) == fs' = [fs EXCEPT ![f] = Good(form, v[1], v[2])] /\ raw' = [raw EXCEPT ![f] = Tokens(form, v[1], v[2])] /\ UNCHANGED <<dir, lst>>
Cut(f) == /\ IsOk(fs[f])
          /\ \E n \in 0..(Len(raw[f]) - 1) : raw' = [raw EXCEPT ![f] = SubSeq(raw[f], 1, n)]
          /\ fs' = [fs EXCEPT ![f] = Damaged(fs[f])] /\ UNCHANGED <<dir, lst>>
Copy(f, g) == fs' = [fs EXCEPT ![g] = fs[f]] /\ raw' = [raw EXCEPT ![g] = raw[f]] /\ UNCHANGED <<dir, lst>>
Del(f) == fs' = [fs EXCEPT ![f] = None] /\ raw' = [raw EXCEPT ![f] = <<"nofile">>] /\ UNCHANGED <<dir, lst>>
D == [i \in 1..NN |-> IF i \in {1, 2, 6} THEN dir[i] ELSE "no"]
G(p, dirs) == Len(lst) < 3 /\ lst' = Glob(lst, 1, D, p, dirs) /\ UNCHANGED <<fs, raw, dir>>
Next == \/ lst = <<>> /\ dir = [i \in {1, 2, 6} |-> "no"] /\ (\/ \E f \in F, form \in Forms, v \in Values : W(f, form, v)
                                                             \/ \E f \in F : Cut(f) \/ Del(f) \/ \E g \in F : Copy(f, g))
        \/ \A f \in F : fs[f] = None /\ \E p \in {"images", "calibration", "directories", ".*"}, b \in BOOLEAN : G(p, b)
Spec == Init /\ [][Next]_vars
\* every read of either form, as the type it has if it has one: the value or a failure in both views
Agree == \A f \in F, form \in Forms : \A ty \in (IF fs[f].k \in {"ok", "part"} THEN {fs[f].ty} ELSE {"int", "vec3", "list"}) :
           IF Readable(fs[f], form) THEN Parse(raw[f], form, ty) = <<"ok", fs[f].val>> ELSE Parse(raw[f], form, ty) = Fail
\* what is left of a file is not readable as what it was
CutFails == \A v \in Values, form \in Forms : \A n \in 0..(Len(Tokens(form, v[1], v[2])) - 1) : Parse(SubSeq(Tokens(form, v[1], v[2]), 1, n), form, v[1]) = Fail
Listing == /\ \A i \in 1..(Len(lst) - 1) : ~Before(lst[i + 1], lst[i])
           /\ \A i \in 1..Len(lst) : D[lst[i][2]] \in {"file", "dir"}
           /\ \A p \in Patterns : Listed(D, p, FALSE) \subseteq Listed(D, p, TRUE) /\ Listed(D, p, FALSE) \subseteq Listed(D, ".*", FALSE)
Inv == Agree /\ CutFails /\ Listing
=============================================================================
