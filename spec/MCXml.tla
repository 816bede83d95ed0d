------------------------------- MODULE MCXml -------------------------------
(* The laws of Xml.tla on every small document reached by editing: what is   *)
(* written stands for the tree it was written from, in every layout; edits   *)
(* are undone by their inverses; names are never repeated.                   *)
EXTENDS Xml
CONSTANT MaxNodes
VARIABLES doc, log
Empty == [k |-> "#", v |-> <<>>, a |-> <<>>, c |-> <<>>]
RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA a, m : a + Size(m), 0, n.c)
a1 == <<97>>  b1 == <<98>>
Texts == {<<97>>, <<60, 38, 97>>, <<97, 32, 34>>, <<9, 39, 62>>}
Leaves == {Node("t", t) : t \in Texts} \cup {Node("d", <<97, 38>>), Node("c", <<60>>), Node("u", <<33, 97>>), Decl(<<49>>, <<>>, <<50>>)}
New == Leaves \cup {Elem(a1, <<>>, <<>>), Elem(b1, <<<<a1, <<34>>>>>>, <<>>)}
Vals == {<<>>, <<34, 39>>, <<60, 9>>}
Holders(n) == {p \in Paths(n) : At(n, p).k \in {"e", "#"}}
\* text never beside text: two texts in a row are one when they are read
Beside(c, i, m) == m.k = "t" /\ ((i > 1 /\ c[i - 1].k = "t") \/ (i <= Len(c) /\ c[i].k = "t"))
Init == doc = Empty /\ log = <<>>
Insert == \E p \in Holders(doc), m \in New : \E i \in 1..(Len(At(doc, p).c) + 1) :
          /\ ~Beside(At(doc, p).c, i, m) /\ ~(p = <<>> /\ m.k = "t")
          /\ doc' = PutAt(doc, p, Put1(At(doc, p), i, m)) /\ log' = <<"insert", p, i, m>>
Cut1 == \E p \in Holders(doc) : \E i \in 1..Len(At(doc, p).c) :
          /\ ~(i > 1 /\ i < Len(At(doc, p).c) /\ At(doc, p).c[i - 1].k = "t" /\ At(doc, p).c[i + 1].k = "t")
          /\ doc' = PutAt(doc, p, Drop(At(doc, p), i)) /\ log' = <<"remove", p, i, At(doc, p).c[i]>>
Attr == \E p \in Holders(doc) \ {<<>>}, n \in {a1, b1}, v \in Vals : doc' = PutAt(doc, p, PutAttr(At(doc, p), n, v)) /\ log' = <<"set", p, n, v>>
Unattr == \E p \in Holders(doc) \ {<<>>}, n \in {a1, b1} : doc' = PutAt(doc, p, DelAttr(At(doc, p), n)) /\ log' = <<"unset", p, n>>
Next == Insert \/ Cut1 \/ Attr \/ Unattr
Bound == Size(doc) <= MaxNodes
View == doc
\* what is written as one line is a source of the same tree, whether white space is condensed or not, from memory and from a file
Source == Map(AsSource, doc.c)
WriteIsSource == EmitDoc(Source, TRUE).o = PrettyDoc(doc.c, <<>>, <<>>)
ReadBack == \A c \in BOOLEAN, f \in BOOLEAN : Means(Source, c, f) = doc.c
\* indentation and line breaks add white space alone
Solid(s) == SelectSeq(s, LAMBDA c : c \notin {LF, CR, TAB, SP})
Layout == /\ Solid(PrettyDoc(doc.c, <<SP>>, <<LF>>)) = Solid(PrettyDoc(doc.c, <<>>, <<>>))
          /\ Solid(PrintedDoc(doc.c)) = Solid(PrettyDoc(doc.c, <<>>, <<>>))
\* the parts are where they say they are, and later parts are further on
Places == LET e == EmitDoc(Source, FALSE) IN /\ \A i \in 1..(Len(e.m) - 1) : e.m[i] < e.m[i + 1]
                                             /\ \A i \in 1..Len(e.m) : Place(e.o, e.m[i], 4, TRUE)[1] >= 1 /\ e.m[i] <= Len(e.o)
Unique == \A p \in Holders(doc) : \A i, j \in 1..Len(At(doc, p).a) : At(doc, p).a[i][1] = At(doc, p).a[j][1] => i = j
Found == \A p \in Holders(doc) : LET c == At(doc, p).c IN \A i \in 1..Len(c) :
           /\ FirstFit(c, i, c[i].v, FALSE, FALSE) = i /\ LastFit(c, i, c[i].v, FALSE, FALSE) = i
           /\ NthFit(c, i - 1, <<>>, TRUE, FALSE) = i
           /\ (FirstFit(c, i + 1, c[i].v, FALSE, FALSE) = 0) = (LastFit(c, Len(c), c[i].v, FALSE, FALSE) = i)
Undo1 == log'[1] = "insert" => PutAt(doc', log'[2], Drop(At(doc', log'[2]), log'[3])) = doc
Undo2 == log'[1] = "remove" => PutAt(doc', log'[2], Put1(At(doc', log'[2]), log'[3], log'[4])) = doc
Grown == IF AttrIx(At(doc, log'[2]), log'[3]) = 0 THEN 1 ELSE 0
Now == At(doc', log'[2])
Undo3 == log'[1] = "set" => (AttrIx(Now, log'[3]) # 0 /\ Now.a[AttrIx(Now, log'[3])][2] = log'[4] /\ Len(Now.a) = Len(At(doc, log'[2]).a) + Grown)
Undo4 == log'[1] = "unset" => AttrIx(Now, log'[3]) = 0
Undone == [][Undo1 /\ Undo2 /\ Undo3 /\ Undo4]_<<doc, log>>
Spec == Init /\ [][Next]_<<doc, log>>
=============================================================================
