------------------------------- MODULE XmlGen -------------------------------
(* Documents written in many ways and read by memory, file and stream; trees  *)
(* printed in every way; documents that are not well formed.                  *)
EXTENDS Xml, Gen
R(lo, hi) == RandomElement(lo..hi)
RI(W, h) == RandomElement(W)
The(W) == CHOOSE a \in W : TRUE
B(x) == IF x THEN 1 ELSE 0
Names == TLCEval(<<S("a"), S("b"), S("item"), S("x-1"), S("_u"), S("n.s"), S("ns:t"), <<233, 97>>, S("aa")>>)
ANames == TLCEval(<<S("id"), S("a"), S("b"), S("long-name"), S("x:y"), S("ID"), <<228>>>>)
Plain == {97, 98, 99, 48, 49, 46, 45, 61, 47, 58, 59, 35, 93, 33, 63, 44}
Odd == {LT, GT, AMP, QUOT, APOS}
Wide == {128, 233, 2047, 2048, 8364, 65533, 65536, 128512}
Few(W, n, h) == TLCEval([i \in 1..n |-> RI(W, <<h, i>>)])
Ws(h) == The({Few(White, n, h) : n \in {IF R(1, 2) = 1 THEN 0 ELSE R(1, 3)}})
Ws1(h) == The({Few(White, n, h) : n \in {IF R(1, 3) > 1 THEN 1 ELSE R(1, 3)}})
\* one character of text or of a value in one of its forms
Item(u8, bare, h) == The({IF g <= 5 THEN <<RI(Plain, h), 0>>
                          ELSE IF g <= 7 THEN <<RI({SP, SP, TAB, LF, CR}, h), 0>>
                          ELSE IF g = 8 THEN <<RI(Wide, h), 0>>
                          ELSE IF g = 9 THEN The({IF f = 0 /\ c \notin bare THEN <<c, 1>> ELSE <<c, f>> : c \in {RI(Odd, h)}, f \in {RI({0, 1, 1, 2, 3, 4}, h)}})
                          ELSE The({<<c, f>> : c \in {RI(IF u8 THEN {97, 10, 9, 32, 60, 233, 8364, 128512, 127, 128, 2047, 2048, 65533, 65536, 1114111} ELSE {97, 10, 9, 32, 60, 126}, h)}, f \in {R(2, 4)}}) : g \in {R(1, 10)}})
Items(u8, bare, lo, h) == The({TLCEval([i \in 1..n |-> Item(u8, bare, <<h, i>>)]) : n \in {R(lo, 8)}})
Value(u8, stream, h) == The({IF q = 0 THEN [q |-> 0, v |-> [i \in 1..n |-> <<c[i], 0>>]] ELSE [q |-> q, v |-> Items(u8, {GT, IF q = QUOT THEN APOS ELSE QUOT} \ (IF stream THEN {GT} ELSE {}), 0, h)]
                             : q \in {RI({QUOT, QUOT, APOS, 0}, h)}, n \in {R(1, 3)}, c \in {Few({97, 98, 49, 46, 45, 35}, 3, h)}})
Pair(nm, u8, stream, h) == The({[w |-> w, n |-> nm, w1 |-> x, w2 |-> y, q |-> v.q, v |-> v.v] : w \in {Ws1(<<h, 1>>)}, x \in {Ws(<<h, 2>>)}, y \in {Ws(<<h, 3>>)}, v \in {Value(u8, stream, h)}})
RECURSIVE Draw(_, _, _)
Draw(W, n, h) == IF n = 0 \/ W = {} THEN <<>> ELSE The({<<y>> \o Draw(W \ {y}, n - 1, <<h, n>>) : y \in {RI(W, h)}})
Pairs(u8, stream, h) == The({TLCEval([i \in 1..Len(d) |-> Pair(ANames[d[i]], u8, stream, <<h, i>>)]) : d \in {Draw(1..Len(ANames), m, h) : m \in {IF R(1, 2) = 1 THEN 0 ELSE R(1, 3)}}})
Verbatim(W, h) == The({Few(W, n, h) : n \in {R(0, 7)}})
MiscSet == Plain \cup Wide \cup {LT, AMP, QUOT, APOS, SP, LF, CR, TAB}
Misc(h) == The({IF k = "c" THEN [k |-> "c", v |-> The({IF v # <<>> /\ v[1] = GT THEN <<97>> \o v ELSE v : v \in {Verbatim((MiscSet \cup {GT}) \ {45}, h)}})]
                ELSE [k |-> "u", v |-> RI({S("!DOCTYPE"), S("?pi"), S("!x"), S("%")}, h) \o Verbatim(MiscSet \ {45, 93}, h)] : k \in {RI({"c", "c", "u"}, h)}})
\* children: text never beside text or white space
RECURSIVE Kids(_, _, _, _, _), Element(_, _, _, _)
Kids(n, d, after, u8, h) ==
  IF n = 0 THEN <<>>
  ELSE The({<<x>> \o Kids(n - 1, d, x.k \in {"t", "w"}, u8, <<h, n>>)
            : x \in {IF g <= 3 /\ ~after THEN [k |-> "t", v |-> Items(u8, {GT, QUOT, APOS}, 1, h)]
                     ELSE IF g <= 5 /\ ~after THEN [k |-> "w", v |-> Ws1(h)]
                     ELSE IF g = 6 THEN [k |-> "d", v |-> Verbatim((MiscSet \cup {GT}) \ {93}, h)]
                     ELSE IF g = 7 THEN Misc(h)
                     ELSE Element(d, u8, FALSE, h) : g \in {R(1, 10)}}})
Element(d, u8, stream, h) ==
  The({[k |-> "e", v |-> nm, a |-> a, w |-> IF a # <<>> /\ a[Len(a)].q = 0 /\ w = <<>> THEN <<SP>> ELSE w, sc |-> c = <<>> /\ s = 1, c |-> c]
       : nm \in {Names[R(1, Len(Names))]}, a \in {Pairs(u8, TRUE, <<h, d>>)}, w \in {Ws(<<h, 7>>)}, s \in {R(0, 1)}, c \in {IF d = 0 THEN <<>> ELSE The({Kids(n, d - 1, FALSE, u8, <<h, d>>) : n \in {R(0, 4)}})}})
\* raw > in the tag of the outermost element unless it goes through a stream
Root(u8, stream, h) == The({IF stream THEN e ELSE [e EXCEPT !.a = p] : e \in {Element(R(0, 3), u8, TRUE, h)}, p \in {Pairs(u8, FALSE, <<h, 8>>)}})
RootOk(e) == IF e.a # <<>> /\ e.a[Len(e.a)].q = 0 /\ e.w = <<>> THEN [e EXCEPT !.w = <<SP>>] ELSE e
DKeys == <<{S("1.0"), S("1.1")}, {S("UTF-8"), S("utf-8"), S("UTF8"), S("ISO-8859-1"), S("latin1")}, {S("yes"), S("no")}>>
Declaration(h) == The({[k |-> "x", w |-> w, a |-> LET K == SelectSeq(<<1, 2, 3>>, LAMBDA i : s[i] > 1) IN TLCEval([j \in 1..Len(K) |-> [w |-> Ws1(<<h, j>>), n |-> Keys[K[j]], w1 |-> Ws(<<h, j, 1>>), w2 |-> Ws(<<h, j, 2>>), q |-> RI({QUOT, APOS}, <<h, j>>),
                                                                                                                                        v |-> Map(LAMBDA c : <<c, 0>>, RI(DKeys[K[j]], <<h, j>>))]])]
                       : w \in {Ws(h)}, s \in {Few(1..3, 3, h)}})
Gap(h) == The({IF w = <<>> THEN <<>> ELSE <<[k |-> "w", v |-> w]>> : w \in {Ws(h)}})
Miscs(h) == The({Flat(TLCEval([i \in 1..n |-> <<Misc(<<h, i>>)>> \o Gap(<<h, i, 1>>)])) : n \in {RI({0, 0, 1, 2}, h)}})
\* given encoding, mark, what comes before the root, root, what comes after
Doc1(g, b, pre, via, h) == The({The({[given |-> g, u8 |-> u, l |-> pre, root |-> RootOk(e), tail |-> t] : e \in {Root(u, via = "stream", h)}, t \in {Gap(<<h, 5>>) \o Miscs(<<h, 6>>)}}) : u \in {IsUtf8(g, b, pre)}})
Head1(b, x, h) == (IF b THEN <<[k |-> "w", v |-> <<BOM>>]>> ELSE IF x THEN <<>> ELSE Gap(h)) \o (IF x THEN <<Declaration(h)>> \o Gap(<<h, 2>>) ELSE <<>>) \o Miscs(<<h, 3>>)
Doc(via, h) == The({The({The({Doc1(g, b, pre, via, h) : pre \in {Head1(b, x, h)}}) : b \in {c /\ g # "legacy"}})
                    : g \in {IF via = "stream" THEN "unknown" ELSE RI({"unknown", "unknown", "utf8", "legacy"}, h)}, c \in {R(1, 5) = 1}, x \in {R(1, 2) = 1}})
\* what is told about a tree
Str(s) == <<Len(s)>> \o s
KindNo(k) == CASE k = "e" -> 1 [] k = "t" -> 2 [] k = "d" -> 3 [] k = "c" -> 4 [] k = "u" -> 5 [] OTHER -> 6
RECURSIVE Dump(_)
Dump(n) == <<KindNo(n.k)>> \o Str(n.v) \o (IF n.k = "x" THEN Flat(Map(Str, n.a)) ELSE <<Len(n.a)>> \o Flat(Map(LAMBDA p : Str(p[1]) \o Str(p[2]), n.a))) \o <<Len(n.c)>> \o Flat(Map(Dump, n.c))
DumpAll(l) == <<Len(l)>> \o Flat(Map(Dump, l))
\* files see CR LF as one line end, LF CR as two
Spot(o, p, tab, u8, file) == Place(IF file THEN o ELSE o, p, tab, u8)
FileRows(o) == [i \in 1..Len(o) |-> IF o[i] = CR THEN (IF i < Len(o) /\ o[i + 1] = LF THEN 0 ELSE LF) ELSE o[i]]
PlaceF(o, p, tab, u8) == LET f == FileRows(o) IN LET K == SelectSeq([i \in 1..(p - 1) |-> i], LAMBDA i : f[i] # 0) IN Place([j \in 1..Len(K) |-> f[K[j]]], Len(K) + 1, tab, u8)
Places(o, m, tab, u8, file) == Flat(TLCEval([i \in 1..Len(m) |-> IF file THEN PlaceF(o, m[i], tab, u8) ELSE Place(o, m[i], tab, u8)]))
DoParse == \E via \in {RI({"memory", "memory", "file", "stream"}, hist)}, cond \in {R(1, 3) > 1}, tab \in {RI({1, 4, 8}, hist)} : \E d \in {Doc(via, hist)} :
           \E l \in {TLCEval(d.l \o <<d.root>> \o (IF via = "stream" THEN <<>> ELSE d.tail))} : \E e \in {EmitDoc(l, cond)}, r \in {IF via = "stream" THEN EmitDoc(d.tail, cond).o ELSE <<>>} :
           Record("parse", <<via, d.given, B(cond), tab>> \o Str(e.o \o r), <<0>> \o DumpAll(TLCEval(Means(l, cond, via = "file"))) \o Places(e.o, e.m, tab, d.u8, via = "file") \o Str(r))
\* ---- not well formed
Cut(d, h) == The({The({SubSeq(e.o, 1, k) : k \in {R(p + 3, Len(e.o) - 1)}}) : e \in {EmitDoc(d.l \o <<d.root>>, TRUE)}, p \in {Len(EmitDoc(d.l, TRUE).o)}})
TagOf(e, extra) == <<LT>> \o e.v \o Flat(Map(LAMBDA p : p.w \o PairText(p), e.a)) \o extra \o e.w
Wrong(d, k, h) ==
  LET pre == EmitDoc(d.l, TRUE).o
      e == d.root
      in == EmitDoc(e.c, TRUE).o
      q == The({p : p \in {Pair(ANames[1], FALSE, FALSE, h)}})
  IN CASE k = "end" -> pre \o TagOf(e, <<>>) \o <<GT>> \o in \o sClose \o RI({e.v \o <<122>>, <<122>>, SubSeq(e.v, 1, Len(e.v) - 1), <<SP>> \o e.v}, h) \o <<GT>>
       [] k = "inner" -> pre \o TagOf(e, <<>>) \o <<GT>> \o in \o S("<q>") \o sClose \o e.v \o <<GT>>
       [] k = "double" -> pre \o <<LT>> \o e.v \o S(" id='1' ") \o Flat(Map(LAMBDA p : PairText(p) \o <<SP>>, SelectSeq(e.a, LAMBDA p : p.n # ANames[1] /\ p.q # 0))) \o S("id='") \o RI({S("1"), S("2"), <<>>}, h) \o <<APOS>> \o RI({S("/>"), S(">x</") \o e.v \o <<GT>>, S("><b/></") \o e.v \o <<GT>>}, h)
       [] k = "noeq" -> pre \o TagOf(e, S(" flag ")) \o RI({S("/>"), S("></") \o e.v \o <<GT>>}, h)
       [] k = "noquote" -> pre \o <<LT>> \o e.v \o S(" id=1") \o <<RI({QUOT, APOS}, h)>> \o S("/>")
       [] k = "ref" -> pre \o <<LT>> \o e.v \o <<GT>> \o RI({S("&#xg1;"), S("x&#1a;y"), S("&#x 1;")}, h) \o sClose \o e.v \o <<GT>>
       [] k = "aref" -> pre \o <<LT>> \o e.v \o S(" id='") \o RI({S("&#xg1;"), S("x&#1a;y")}, h) \o S("'/>")
       [] k = "slash" -> pre \o TagOf(e, <<>>) \o S("/ >")
       [] k = "empty" -> RI({<<>>, <<SP>>, <<LF, LF>>, S("just text"), S("abc<a/>"), <<BOM>>}, h)
       [] OTHER -> Cut(d, h)
DoBad == \E d \in {Doc("memory", hist)}, k \in {RI({"end", "inner", "double", "noeq", "noquote", "ref", "aref", "slash", "empty", "cut", "cut1", "cut2"}, hist)}, via \in {RI({"memory", "memory", "memory", "file"}, hist)}, cond \in {R(1, 3) > 1}, strip \in {R(0, 1)} :
         \E t \in {TLCEval(Wrong(d, k, hist))} : Record("bad", <<via, d.given, B(cond), 4, IF k \in {"cut", "cut1", "cut2"} THEN strip ELSE 0>> \o Str(t), <<1>>)
\* ---- printing and the way back
ValSet == (Plain \ {35}) \cup Odd \cup Wide \cup {SP, LF, TAB, CR, 1, 31}
TVal(h) == The({Few(ValSet \ {SP}, n, h) \o (IF n > 3 THEN <<SP>> \o Few(ValSet \ {SP}, m, <<h, 1>>) ELSE <<>>) : n \in {R(1, 6)}, m \in {R(1, 3)}})
TreePairs(h) == The({TLCEval([i \in 1..Len(d) |-> <<ANames[d[i]], The({Few(ValSet, n, <<h, i>>) : n \in {R(0, 6)}})>>]) : d \in {Draw(1..Len(ANames), m, h) : m \in {R(0, 3)}}})
RECURSIVE TKids(_, _, _, _), TElem(_, _)
TKids(n, d, after, h) ==
  IF n = 0 THEN <<>>
  ELSE The({<<x>> \o TKids(n - 1, d, x.k = "t", <<h, n>>)
            : x \in {IF g <= 3 /\ ~after THEN Node("t", TVal(h) \o <<97>>) ELSE IF g = 4 THEN Node("d", Verbatim((MiscSet \cup {GT}) \ {93, CR}, h)) ELSE IF g = 5 THEN The({Node(m.k, SelectSeq(m.v, LAMBDA c : c # CR)) : m \in {Misc(h)}}) ELSE TElem(d, h) : g \in {R(1, 9)}}})
TElem(d, h) == The({Elem(Names[nm], a, IF d = 0 THEN <<>> ELSE TKids(n, d - 1, FALSE, <<h, d>>)) : nm \in {R(1, Len(Names))}, a \in {TreePairs(h)}, n \in {R(0, 4)}})
TDoc(h) == The({x \o m \o <<e>> \o c : x \in {IF R(1, 2) = 1 THEN <<>> ELSE <<Decl(RI({<<>>, S("1.0")}, h), RI({<<>>, S("UTF-8"), S("latin1")}, h), RI({<<>>, S("yes")}, h))>>}, m \in {IF R(1, 3) > 1 THEN <<>> ELSE <<Node("c", S(" x "))>>},
                                       e \in {TElem(R(0, 3), h)}, c \in {IF R(1, 3) > 1 THEN <<>> ELSE <<Node("c", S("y")), TElem(1, <<h, 4>>)>>}})
DoPrint == \E l \in {TLCEval(TDoc(hist))}, i \in {RI({<<>>, <<TAB>>, Ind4, <<SP>>}, hist)}, b \in {RI({<<>>, <<LF>>, <<CR, LF>>}, hist)} :
           Record("print", Str(i) \o Str(b) \o DumpAll(l), Str(PrintedDoc(l)) \o Str(PrettyDoc(l, i, b)) \o Str(PrettyDoc(l, <<>>, <<>>)))
DoRound == \E l \in {TLCEval(TDoc(hist))}, w \in {R(1, 3)} : Record("round", <<w>> \o DumpAll(l), DumpAll(IF w = 3 THEN l ELSE l))
DoFail == \E k \in {RI({"missing", "directory", "empty", "full", "nodir"}, hist)} : Record("fail", <<k>>, <<0>>)
GenInit == GenStart
GenNext == IF More THEN \E k \in {R(1, 12)} : CASE k <= 6 -> DoParse [] k <= 8 -> DoBad [] k <= 10 -> DoPrint [] k = 11 -> DoRound [] OTHER -> (IF R(1, 4) = 1 THEN DoFail ELSE DoRound) ELSE Finish
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted>>
=============================================================================
