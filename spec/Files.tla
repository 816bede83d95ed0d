------------------------------- MODULE Files --------------------------------
(* Calibration files, directory listings and string archives.               *)
(* A data file is what was last done to it; its content as tokens is below, *)
(* and MCFiles checks that both views agree on every read.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- the abstract view of a data file
None == [k |-> "none"]
Dir == [k |-> "dir"]
Bad == [k |-> "bad"]
\* part of a file: not readable as what it was (as something else it may be)
Part(form, ty) == [k |-> "part", form |-> form, ty |-> ty]
Good(form, ty, val) == [k |-> "ok", form |-> form, ty |-> ty, val |-> val]
IsOk(e) == e.k = "ok"
\* reading as a form: the type and value, or a failure
Readable(e, form) == IsOk(e) /\ (e.k = "ok" => e.form = form)
Writable(e) == e.k # "dir"
\* a file with measurements starts with "m"
Forms == {"text", "bin"}
\* damage: only part of the file is left, or something else is
Damaged(e) == IF IsOk(e) THEN Part(e.form, e.ty) ELSE e
\* ---- the same as tokens: signature of the form, then type header, then values; a list says how many there are
Header(ty) == CASE ty = "list" -> <<"h">> [] OTHER -> <<>>
Tokens(form, ty, val) == <<form>> \o Header(ty) \o (IF ty = "list" THEN <<Len(val)>> \o val ELSE val)
Arity(ty) == CASE ty = "int" -> 1 [] ty = "vec3" -> 3 [] OTHER -> -1
Fail == <<"fail">>
Parse(c, form, ty) ==
  IF Len(c) < 1 \/ c[1] # form THEN Fail
  ELSE IF ty = "list" THEN IF Len(c) < 3 \/ c[2] # "h" \/ Len(c) < 3 + c[3] THEN Fail ELSE <<"ok", SubSeq(c, 4, 3 + c[3])>>
  ELSE IF Len(c) < 1 + Arity(ty) THEN Fail ELSE <<"ok", SubSeq(c, 2, 1 + Arity(ty))>>
\* ---- directories: names in byte order
Names == <<".cal", "A.PNG", "a.BMP", "a.BoostBinary", "a.CAL", "a.cal", "a.cal.txt", "a.jpg", "a.txt", "acal", "b.JPG", "b.cal", "b.tar.png", "xjpg">>
NN == Len(Names)
Patterns == {"images", "calibration", "directories", "binary", ".*", "a.*", "a", ".*cal", "[ab]\\.cal", "a\\.c", "(a|b)\\.(jpg|JPG)"}
Matching(p) == CASE p = "images" -> {2, 3, 8, 11, 13} [] p = "calibration" -> {1, 6, 12} [] p = "binary" -> {4} [] p = "directories" -> {}
                 [] p = ".*" -> 1..NN [] p = "a.*" -> 3..10 [] p = ".*cal" -> {1, 6, 10, 12} [] p = "[ab]\\.cal" -> {6, 12}
                 [] p = "(a|b)\\.(jpg|JPG)" -> {8, 11} [] OTHER -> {}
\* entries: "no", "file", "dir", "link" (to a file), "dead" (a link to nothing)
Listed(d, p, dirs) == {i \in 1..NN : (d[i] \in {"file", "link"} /\ i \in Matching(p)) \/ (dirs /\ d[i] = "dir")}
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Insert(_, _)
Insert(l, x) == IF l = <<>> THEN <<x>> ELSE IF Before(x, Head(l)) THEN <<x>> \o l ELSE <<Head(l)>> \o Insert(Tail(l), x)
RECURSIVE Sorted(_)
Sorted(l) == IF l = <<>> THEN <<>> ELSE Insert(Sorted(Tail(l)), Head(l))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetSeq(S \ {m})
\* listing directory n into a list that may hold entries already
Glob(l, n, d, p, dirs) == Sorted(l \o (LET s == SetSeq(Listed(d, p, dirs)) IN [i \in 1..Len(s) |-> <<n, s[i]>>]))
\* ---- string archives: numbers in quarters
Quarter(x) == LET a == IF x < 0 THEN -x ELSE x IN
              (IF x < 0 THEN "-" ELSE "") \o ToString(a \div 4) \o (CASE a % 4 = 0 -> "" [] a % 4 = 1 -> ".25" [] a % 4 = 2 -> ".5" [] OTHER -> ".75")
Letters == <<"a", "b", "Z", "_", "#">>
\* the tokens of one item <<type, values>>
ItemTokens(it) == CASE it[1] = "char" -> <<Letters[it[2][1]]>>
                    [] it[1] \in {"int", "uint", "ull"} -> <<ToString(it[2][1])>>
                    [] it[1] = "list" -> <<ToString(Len(it[2]))>> \o [i \in 1..Len(it[2]) |-> Quarter(it[2][i])]
                    [] OTHER -> [i \in 1..Len(it[2]) |-> Quarter(it[2][i])]
RECURSIVE AllTokens(_)
AllTokens(l) == IF l = <<>> THEN <<>> ELSE ItemTokens(Head(l)) \o AllTokens(Tail(l))
RECURSIVE Join(_, _)
Join(s, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN s[1] ELSE Join(s, k - 1) \o " " \o s[k]
StrText(l) == Join(AllTokens(l), Len(AllTokens(l)))
=============================================================================
