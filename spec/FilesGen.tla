------------------------------ MODULE FilesGen ------------------------------
(* Behaviours on a scratch directory: four data files, two directories of   *)
(* named entries, a result list that is listed into again and again, and    *)
(* string archives.                                                         *)
EXTENDS Files, Gen
VARIABLES fs, dirs, lst
R(lo, hi) == RandomElement(lo..hi)
RI(S, h) == RandomElement(S)
The(S) == CHOOSE a \in S : TRUE
NF == 4
Exc == <<[exc |-> "ubitrack"]>>
Q8 == {<<1, 0, 0, 0>>, <<0, 0, 0, 1>>, <<1, 1, -1, 1>>, <<2, -3, 1, 4>>, <<0, 3, 4, 0>>, <<5, 0, -1, 2>>}
Types == {"int", "vec3", "pose", "mat33", "list"}
MTypes == {"mvec3", "mpose", "mmat33", "mlist"}
V3(h) == [v |-> TLCEval([i \in 1..3 |-> R(-2000, 2000)]), d |-> 16]
Val(ty, h) == CASE ty = "int" -> <<R(-100000, 100000)>> [] ty \in {"vec3", "mvec3"} -> <<V3(h)>>
                [] ty \in {"pose", "mpose"} -> <<[qs |-> RI(Q8, h)], V3(h)>>
                [] ty \in {"mat33", "mmat33"} -> <<[v |-> TLCEval([i \in 1..9 |-> R(-2000, 2000)]), d |-> 16]>>
                [] OTHER -> The({<<n>> \o TLCEval([i \in 1..n |-> V3(i)]) : n \in {R(0, 4)}})
SetF(f, e) == fs' = [fs EXCEPT ![f] = e] /\ UNCHANGED <<dirs, lst>>
KeepF == UNCHANGED <<fs, dirs, lst>>
\* a measurement carries its time in front
DoWrite == \E f \in {R(1, NF)}, form \in {RI(Forms, hist)}, ty \in {RI(Types \cup MTypes, hist)} : \E v \in {Val(ty, hist)}, t \in {R(0, 2000000000)} :
           \E w \in {IF ty \in MTypes THEN <<t>> \o v ELSE v}, fm \in {IF ty \in MTypes THEN "text" ELSE form} :
           IF Writable(fs[f]) THEN SetF(f, Good(fm, ty, w)) /\ Record("write", <<f, fm, ty>> \o w, <<>>)
           ELSE KeepF /\ Record("write", <<f, fm, ty>> \o w, Exc)
DoRead == \E f \in {R(1, NF)}, u \in {R(0, 1)} : \E e \in {fs[f]} :
          KeepF /\ IF IsOk(e) THEN (IF e.ty \in MTypes /\ R(1, 2) = 1 THEN Record("drop", <<f, e.ty, u>>, Tail(e.val))
                                    ELSE \E form \in {IF R(1, 4) = 1 THEN "bin" ELSE e.form} : \E fm \in {IF e.ty \in MTypes THEN "text" ELSE form} :
                                         Record("read", <<f, fm, e.ty, u>>, IF Readable(e, fm) THEN e.val ELSE Exc))
          ELSE \E ty \in {IF e.k = "part" THEN e.ty ELSE RI(Types \cup MTypes, hist)}, form \in {RI(Forms, hist)} :
               IF ty \in MTypes /\ form = "bin" THEN Record("drop", <<f, ty, u>>, Exc) ELSE Record("read", <<f, form, ty, u>>, Exc)
DoDamage == \E f \in {R(1, NF)}, w \in {RI({"cut", "cut", "empty", "junk"}, hist)}, n \in {R(0, 15)} :
            SetF(f, IF w = "cut" THEN Damaged(fs[f]) ELSE IF fs[f].k = "dir" THEN Dir ELSE Bad) /\ Record("damage", <<f, w, n>>, <<>>)
DoFile == \E f \in {R(1, NF)}, g \in {R(1, NF)}, w \in {RI({"rm", "mkdir", "copy"}, hist)} :
          IF w = "rm" THEN SetF(f, None) /\ Record("rm", <<f>>, <<>>)
          ELSE IF w = "mkdir" THEN SetF(f, Dir) /\ Record("mkdir", <<f>>, <<>>)
          ELSE IF f = g \/ fs[f].k = "dir" THEN KeepF /\ Record("nothing", <<>>, <<>>) ELSE SetF(g, fs[f]) /\ Record("copy", <<f, g>>, <<>>)
\* nowhere to write to, and no room
DoNowhere == \E w \in {RI({"missing", "full"}, hist)}, form \in {RI(Forms, hist)}, ty \in {RI(Types, hist)} : KeepF /\ Record("nowhere", <<w, form, ty>> \o Val(ty, hist), Exc)
\* ---- listings
SetD(n, i, k) == dirs' = [dirs EXCEPT ![n][i] = k] /\ UNCHANGED <<fs, lst>>
DoEntry == \E n \in {R(1, 2)}, i \in {R(1, NN)}, k \in {RI({"no", "file", "file", "file", "dir", "link", "dead"}, hist)} : SetD(n, i, k) /\ Record("entry", <<n, Names[i], k>>, <<>>)
Where(n) == IF n = 1 THEN "p" ELSE "q"
Out(l) == <<Len(l)>> \o TLCEval([i \in 1..Len(l) |-> Where(l[i][1]) \o "/" \o Names[l[i][2]]])
PutL(l) == lst' = l /\ UNCHANGED <<fs, dirs>>
DoGlob == \E n \in {R(1, 2)}, p \in {RI(Patterns, hist)}, b \in {R(0, 1)} : \E ds \in {p = "directories" \/ (b = 1 /\ p \notin {"images", "calibration", "binary"})} :
          \E l \in {IF Len(lst) > 12 THEN <<>> ELSE lst} : \E r \in {Glob(l, n, dirs[n], p, ds)} :
          PutL(r) /\ Record("glob", <<IF l = <<>> THEN 1 ELSE 0, Where(n), p, IF ds THEN 1 ELSE 0>>, IF r = <<>> THEN Exc ELSE Out(r))
\* one path instead of a directory: itself, whatever the pattern
DoGlob1 == \E n \in {R(1, 2)}, i \in {R(1, NN)}, p \in {RI(Patterns, hist)} : \E k \in {dirs[n][i]} : \E l \in {IF Len(lst) > 12 THEN <<>> ELSE lst} :
           \E r \in {IF k \in {"file", "link"} THEN Append(l, <<n, i>>) ELSE l} :
           PutL(IF k = "dir" THEN l ELSE r) /\ IF k = "dir" THEN Record("nothing", <<>>, <<>>) /\ l = lst
             ELSE Record("glob", <<IF l = <<>> THEN 1 ELSE 0, Where(n) \o "/" \o Names[i], p, 0>>, IF k \in {"no", "dead"} THEN Exc ELSE Out(r))
\* ---- string archives
ItTypes == {"char", "int", "uint", "ull", "double", "float", "vec3", "quat", "pose", "mat23", "list"}
ILen(t) == CASE t = "vec3" -> 3 [] t = "quat" -> 4 [] t = "pose" -> 7 [] t = "mat23" -> 6 [] t = "list" -> R(0, 3) [] OTHER -> 1
Item(h) == The({<<t, CASE t = "char" -> <<R(1, Len(Letters))>> [] t = "int" -> <<R(-99999, 99999)>> [] t \in {"uint", "ull"} -> <<R(0, 2000000000)>>
                    [] t = "quat" -> RI({<<2, 2, -2, 2>>, <<0, 4, 0, 0>>, <<-2, 2, 2, 2>>}, h) [] t = "pose" -> <<2, -2, -2, 2, R(-999, 999), R(-999, 999), R(-999, 999)>>
                    [] OTHER -> TLCEval([i \in 1..ILen(t) |-> R(-9999, 9999)])>> : t \in {RI(ItTypes, h)}})
Items(h) == The({TLCEval([i \in 1..n |-> Item(i)]) : n \in {R(1, 5)}})
IWire(it) == <<it[1], Len(it[2])>> \o (CASE it[1] = "char" -> <<Letters[it[2][1]]>> [] it[1] \in {"int", "uint", "ull"} -> it[2] [] OTHER -> <<[v |-> it[2], d |-> 4]>>)
IOut(it) == (IF it[1] = "list" THEN <<Len(it[2])>> ELSE <<>>) \o (CASE it[1] = "char" -> <<Letters[it[2][1]]>> [] it[1] \in {"int", "uint", "ull"} -> it[2] [] OTHER -> <<[v |-> it[2], d |-> 4]>>)
DoStrOut == \E l \in {Items(hist)} : KeepF /\ Record("strout", <<Len(l)>> \o TLCEval([i \in 1..Len(l) |-> IWire(l[i])]), <<StrText(l)>>)
DoStrIn == \E l \in {Items(hist)}, w \in {RI({"", " ", "\n", " \t"}, hist)} : KeepF /\ Record("strin", <<w \o StrText(l) \o w, Len(l)>> \o TLCEval([i \in 1..Len(l) |-> l[i][1]]), TLCEval([i \in 1..Len(l) |-> IOut(l[i])]))
\* one item more than there is, or a word where a number should be
DoStrBad == \E l \in {SelectSeq(Items(hist), LAMBDA it : it[1] # "list")}, w \in {R(0, 1)}, t \in {RI({"int", "double", "uint", "vec3", "char"}, hist)} : KeepF
            /\ IF w = 0 THEN Record("strin", <<StrText(l), Len(l) + 1>> \o TLCEval([i \in 1..Len(l) |-> l[i][1]]) \o <<t>>, Exc)
               ELSE Record("strin", <<StrText(l) \o " word", Len(l) + 1>> \o TLCEval([i \in 1..Len(l) |-> l[i][1]]) \o <<IF t = "char" THEN "int" ELSE t>>, Exc)
GInit == GenStart /\ fs = [f \in 1..NF |-> None] /\ dirs = [n \in 1..2 |-> [i \in 1..NN |-> "no"]] /\ lst = <<>>
Step == \E w \in {R(1, 40)} :
   CASE w <= 8 -> DoWrite [] w <= 17 -> DoRead [] w <= 19 -> DoDamage [] w = 20 -> DoFile [] w = 21 -> DoNowhere
     [] w <= 27 -> DoEntry [] w <= 31 -> DoGlob [] w = 32 -> DoGlob1 [] w <= 35 -> DoStrOut [] w <= 38 -> DoStrIn [] OTHER -> DoStrBad
GenSpec == GInit /\ [][IF More THEN Step ELSE Finish /\ KeepF]_<<hist, emitted, fs, dirs, lst>>
=============================================================================
