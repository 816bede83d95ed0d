------------------------------ MODULE MCLens ------------------------------
(* Exhaustive exploration of Lens.tla on a small grid: symmetry, the       *)
(* closed-form derivatives against exact finite differences, monotonicity, *)
(* and a camera store through constructors, archives and flips.            *)
EXTENDS Lens
VARIABLES l, p, st, blob
vars == <<l, p, st, blob>>
Ks == {<<0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0>>, <<-1, 1, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0, 0>>, <<1, -1, 1, 1, 0, 0>>, <<0, 1, 0, 0, 1, -1>>, <<0, 0, 0, 1, 0, 0>>}
Grid == (-3..3) \X (-3..3)
Store == 1..2
Ctors == {NoCam} \cup {Cam(CalibType(rs), <<2, 4>>, <<3, 1, 2, 3, 1, g>>, rs, Pad(TLCEval([i \in 1..rs |-> i])), IF rs = 4 THEN <<0, 0>> ELSE <<1, 2>>) : rs \in {2, 3, 4, 6}, g \in {1, -1}}
Init == /\ l \in [k : Ks, p : (-1..1) \X (-1..1)] /\ p \in Grid
        /\ \/ l.p = <<0, 0>> /\ l.k = <<0, 0, 0, 0, 0, 0>> /\ p = <<0, 0>> /\ st \in [Store -> Ctors] /\ blob = NoCam
           \/ st = [i \in Store |-> NoCam] /\ blob = NoCam
Next == /\ l.p = <<0, 0>> /\ l.k = <<0, 0, 0, 0, 0, 0>> /\ p = <<0, 0>>
        /\ UNCHANGED <<l, p>>
        /\ \/ \E i \in Store : blob' = Written(st[i]) /\ UNCHANGED st
           \/ \E i \in Store : st' = [st EXCEPT ![i] = blob] /\ UNCHANGED blob
           \/ \E i \in Store : st' = [st EXCEPT ![i] = Flip(st[i])] /\ UNCHANGED blob
           \/ \E i, j \in Store : st' = [st EXCEPT ![i] = st[j]] /\ UNCHANGED blob
Spec == Init /\ [][Next]_vars
\* rotation by 90 degrees and reflection; (p2, p1) turns like a vector
Rot(v) == <<-v[2], v[1]>>
Ref(v) == <<v[1], -v[2]>>
Sw(v) == <<v[2], v[1]>>
Turn(T(_), v) == Sw(T(Sw(v)))
Sym(T(_)) == LET m == [l EXCEPT !.p = Turn(T, l.p)] IN DistN(m, T(p)) = T(DistN(l, p)) /\ DistD(m, T(p)) = DistD(l, p)
Symmetry == Sym(Rot) /\ Sym(Ref) /\ Sym(Rot) /\ DistN(l, <<0, 0>>) = <<0, 0>>
Identity == (l.k = Zero(6) /\ l.p = <<0, 0>>) => \A i \in 1..2 : DistN(l, p)[i] * D = p[i] * DistD(l, p)
\* exact central differences of a polynomial of degree at most 8: 840 f'(0) = 672 d1 - 168 d2 + 32 d3 - 3 d4
Diff(f(_)) == 672 * (f(1) - f(-1)) - 168 * (f(2) - f(-2)) + 32 * (f(3) - f(-3)) - 3 * (f(4) - f(-4))
PolyOK == LET f(t) == Poly(<<l.k[1], l.k[2], l.k[3]>>, R2(p) + t) IN Diff(f) = 840 * PolyD(<<l.k[1], l.k[2], l.k[3]>>, R2(p))
TanOK == \A j \in 1..2, i \in 1..2 : LET f(t) == Tan(l, [p EXCEPT ![j] = @ + t])[i] IN Diff(f) = 840 * TanD(l, p)[2 * (i - 1) + j]
\* derivative of x U by x (numerators): U + 2 x^2 U'
ProdOK == \A i \in 1..2 : LET f(t) == (p[i] + t) * Up(l, [p EXCEPT ![i] = @ + t]) IN
             Diff(f) = 840 * (Up(l, p) + 2 * p[i] * p[i] * UpD(l, p))
\* what Monotone promises: the distorted radius of the radial part grows
Rad2(m, r) == LET u == Poly(<<m.k[1], m.k[2], m.k[3]>>, r) IN r * u * u
Grows == (Monotone(l, 4) /\ \A i \in 4..6 : l.k[i] = 0) => \A r \in 0..3 : Rad2(l, r) < Rad2(l, r + 1)
TypesOK == \A i \in Store : st[i].type = CalibType(st[i].rs) /\ (\A j \in 1..6 : j > st[i].rs => st[i].rad[j] = 0) /\ Flip(Flip(st[i])) = st[i]
WrittenOK == Written(blob) = blob
Inv == Symmetry /\ Identity /\ PolyOK /\ TanOK /\ ProdOK /\ Grows /\ TypesOK /\ WrittenOK
=============================================================================
