-------------------------------- MODULE Xml --------------------------------
(* XML documents: the tree a document stands for, the texts a tree may be   *)
(* written as by an author (layout, quotes, character references), the text *)
(* the library writes, the row and column of every part, and the editing    *)
(* steps on a tree. Characters are code points.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
TAB == 9  LF == 10  CR == 13  SP == 32  QUOT == 34  AMP == 38  APOS == 39  LT == 60  GT == 62  BOM == 65279
White == {TAB, LF, CR, SP}
Alphabet == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Rest == " !\"#$%&'()*+,-./0123456789:;<=>?@"
Code(c) == IF \E i \in 1..26 : SubSeq(Alphabet, i, i) = c THEN 96 + CHOOSE i \in 1..26 : SubSeq(Alphabet, i, i) = c
           ELSE IF \E i \in 1..26 : SubSeq(Upper, i, i) = c THEN 64 + CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c
           ELSE IF c = "[" THEN 91 ELSE IF c = "]" THEN 93 ELSE IF c = "_" THEN 95
           ELSE 31 + CHOOSE i \in 1..33 : SubSeq(Rest, i, i) = c
RECURSIVE S(_)
S(t) == IF Len(t) = 0 THEN <<>> ELSE <<Code(SubSeq(t, 1, 1))>> \o S(SubSeq(t, 2, Len(t)))
Flat(l) == FoldLeft(LAMBDA a, b : a \o b, <<>>, l)
Map(F(_), l) == [i \in 1..Len(l) |-> F(l[i])]
(* trees: kind, value, attributes (name, value), children.                  *)
(* kinds: e element, t text, d character data, c comment, u unknown,        *)
(* x declaration (its attributes: version, encoding, standalone)            *)
Node(k, v) == [k |-> k, v |-> v, a |-> <<>>, c |-> <<>>]
Elem(n, a, c) == [k |-> "e", v |-> n, a |-> a, c |-> c]
Decl(v, e, s) == [k |-> "x", v |-> <<>>, a |-> <<v, e, s>>, c |-> <<>>]
sLt == TLCEval(S("&lt;"))  sGt == TLCEval(S("&gt;"))  sAmp == TLCEval(S("&amp;"))  sQuot == TLCEval(S("&quot;"))  sApos == TLCEval(S("&apos;"))
sEnd == TLCEval(S(" />"))  sEnd2 == TLCEval(S("/>"))  sClose == TLCEval(S("</"))  sCd == TLCEval(S("<![CDATA["))  sDc == TLCEval(S("]]>"))  sCo == TLCEval(S("<!--"))  sOc == TLCEval(S("-->"))
sXml == TLCEval(S("<?xml "))  sLmx == TLCEval(S("?>"))  sVer == TLCEval(S("version"))  sEnc == TLCEval(S("encoding"))  sSta == TLCEval(S("standalone"))  sEq == TLCEval(S("=\""))  sXm == TLCEval(S("<?xml"))
Keys == <<sVer, sEnc, sSta>>
Ind4 == <<SP, SP, SP, SP>>
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
hexd(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Digits(_, _)
Digits(n, b) == IF n < b THEN <<n>> ELSE Append(Digits(n \div b, b), n % b)
Dec(n) == IF n < 0 THEN <<45>> \o Map(LAMBDA d : 48 + d, Digits(-n, 10)) ELSE Map(LAMBDA d : 48 + d, Digits(n, 10))
\* eighths, written with six decimals
Fix(n) == LET m == IF n < 0 THEN -n ELSE n IN (IF n < 0 THEN <<45>> ELSE <<>>) \o Dec(m \div 8) \o <<46>> \o LET f == (m % 8) * 125 IN <<48 + f \div 100, 48 + ((f \div 10) % 10), 48 + (f % 10), 48, 48, 48>>
(* ------------------------------- writing -------------------------------- *)
Named(c) == CASE c = LT -> sLt [] c = GT -> sGt [] c = AMP -> sAmp [] c = QUOT -> sQuot [] OTHER -> sApos
EncC(c) == IF c \in {LT, GT, AMP, QUOT, APOS} THEN Named(c) ELSE IF c < 32 THEN <<AMP, 35, 120, HexD(c \div 16), HexD(c % 16), 59>> ELSE <<c>>
Enc(s) == Flat(Map(EncC, s))
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
AttrText(p) == LET q == IF Has(p[2], QUOT) THEN APOS ELSE QUOT IN Enc(p[1]) \o <<61, q>> \o Enc(p[2]) \o <<q>>
AttrsText(l) == Flat(Map(LAMBDA p : <<SP>> \o AttrText(p), l))
Times(s, n) == Flat([i \in 1..n |-> s])
DeclText(a) == sXml \o Flat([i \in 1..3 |-> IF a[i] = <<>> THEN <<>> ELSE Keys[i] \o sEq \o a[i] \o <<QUOT, SP>>]) \o sLmx
IsText(n) == n.k \in {"t", "d"}
\* to a file
RECURSIVE Printed(_, _)
Printed(n, d) ==
  CASE n.k = "t" -> Enc(n.v)
    [] n.k = "d" -> <<LF>> \o Times(Ind4, d) \o sCd \o n.v \o sDc \o <<LF>>
    [] n.k = "c" -> Times(Ind4, d) \o sCo \o n.v \o sOc
    [] n.k = "u" -> Times(Ind4, d) \o <<LT>> \o n.v \o <<GT>>
    [] n.k = "x" -> DeclText(n.a)
    [] n.k = "e" -> Times(Ind4, d) \o <<LT>> \o n.v \o AttrsText(n.a) \o
         (IF n.c = <<>> THEN sEnd
          ELSE IF Len(n.c) = 1 /\ IsText(n.c[1]) THEN <<GT>> \o Printed(n.c[1], d + 1) \o sClose \o n.v \o <<GT>>
          ELSE <<GT>> \o Flat(Map(LAMBDA m : (IF IsText(m) THEN <<>> ELSE <<LF>>) \o Printed(m, d + 1), n.c)) \o <<LF>> \o Times(Ind4, d) \o sClose \o n.v \o <<GT>>)
PrintedDoc(l) == Flat(Map(LAMBDA m : Printed(m, 0) \o <<LF>>, l))
\* by the printer with a choice of indentation and line break
RECURSIVE Pretty(_, _, _, _)
Pretty(n, d, i, b) ==
  CASE n.k = "t" -> Times(i, d) \o Enc(n.v) \o b
    [] n.k = "d" -> Times(i, d) \o sCd \o n.v \o sDc \o b
    [] n.k = "c" -> Times(i, d) \o sCo \o n.v \o sOc \o b
    [] n.k = "u" -> Times(i, d) \o <<LT>> \o n.v \o <<GT>> \o b
    [] n.k = "x" -> Times(i, d) \o DeclText(n.a) \o b
    [] n.k = "e" -> Times(i, d) \o <<LT>> \o n.v \o AttrsText(n.a) \o
         (IF n.c = <<>> THEN sEnd \o b
          ELSE IF Len(n.c) = 1 /\ n.c[1].k = "t" THEN <<GT>> \o Enc(n.c[1].v) \o sClose \o n.v \o <<GT>> \o b
          ELSE <<GT>> \o b \o Flat(Map(LAMBDA m : Pretty(m, d + 1, i, b), n.c)) \o Times(i, d) \o sClose \o n.v \o <<GT>> \o b)
PrettyDoc(l, i, b) == Flat(Map(LAMBDA m : Pretty(m, 0, i, b), l))
(* ------------------------------- reading -------------------------------- *)
(* the source of a document: nodes with their layout                        *)
(*  e: [k, v, a: sequence of [w, n, w1, w2, q, v: items], w, sc, c]         *)
(*  t: [k, v: items]   item: <<character, form>>: 0 as it is, 1 by name,    *)
(*     2 decimal, 3 and 4 hexadecimal                                       *)
(*  d, c, u: [k, v]    x: [k, a: as of e, w]    w: [k, v] white space       *)
ItemText(it) == CASE it[2] = 0 -> <<it[1]>> [] it[2] = 1 -> Named(it[1]) [] it[2] = 2 -> <<AMP, 35>> \o Dec(it[1]) \o <<59>>
                  [] it[2] = 3 -> <<AMP, 35, 120>> \o Map(hexd, Digits(it[1], 16)) \o <<59>> [] OTHER -> <<AMP, 35, 120, 48>> \o Map(HexD, Digits(it[1], 16)) \o <<59>>
ItemsText(l) == Flat(Map(ItemText, l))
Chars(l) == Map(LAMBDA it : it[1], l)
IsLitWhite(it) == it[2] = 0 /\ it[1] \in White
\* literal line ends in a file: CR LF and CR are LF
Lines(l) == LET F(acc, it) == IF it = <<CR, 0>> THEN Append(acc, <<LF, 0>>) ELSE Append(acc, it)
            IN FoldLeft(F, <<>>, LET K == SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : ~(l[i] = <<LF, 0>> /\ i > 1 /\ l[i - 1] = <<CR, 0>>)) IN [j \in 1..Len(K) |-> l[K[j]]])
\* literal white space of text: one blank for every run, none at the ends
Condense(l) == LET F(acc, it) == IF IsLitWhite(it) THEN [acc EXCEPT !.gap = acc.o # <<>>] ELSE [o |-> acc.o \o (IF acc.gap THEN <<SP>> ELSE <<>>) \o <<it[1]>>, gap |-> FALSE]
               IN FoldLeft(F, [o |-> <<>>, gap |-> FALSE], l).o
TextVal(l, cond, file) == IF cond THEN Condense(l) ELSE Chars(IF file THEN Lines(l) ELSE l)
Blank(v) == \A i \in 1..Len(v) : v[i] \in White
Seen(n, cond, file) == n.k # "w" /\ ~(n.k = "t" /\ Blank(TextVal(n.v, cond, file)))
Verb(v, file) == IF file THEN Chars(Lines(Map(LAMBDA c : <<c, 0>>, v))) ELSE v
DeclVal(a, i) == LET K == {j \in 1..Len(a) : a[j].n = Keys[i]} IN IF K = {} THEN <<>> ELSE Chars(a[CHOOSE j \in K : \A m \in K : m <= j].v)
RECURSIVE Mean(_, _, _)
Mean(n, cond, file) ==
  CASE n.k = "t" -> Node("t", TextVal(n.v, cond, file))
    [] n.k \in {"d", "c", "u"} -> Node(n.k, Verb(n.v, file))
    [] n.k = "x" -> Decl(DeclVal(n.a, 1), DeclVal(n.a, 2), DeclVal(n.a, 3))
    [] n.k = "e" -> Elem(n.v, Map(LAMBDA p : <<p.n, Chars(IF file THEN Lines(p.v) ELSE p.v)>>, n.a), Map(LAMBDA m : Mean(m, cond, file), SelectSeq(n.c, LAMBDA m : Seen(m, cond, file))))
Means(l, cond, file) == Map(LAMBDA m : Mean(m, cond, file), SelectSeq(l, LAMBDA m : Seen(m, cond, file)))
\* the text of a source, and where its parts begin (in the order: node, its attributes, its children)
PairText(p) == p.n \o p.w1 \o <<61>> \o p.w2 \o (IF p.q = 0 THEN <<>> ELSE <<p.q>>) \o ItemsText(p.v) \o (IF p.q = 0 THEN <<>> ELSE <<p.q>>)
FirstSolid(l) == CHOOSE i \in 1..Len(l) : ~IsLitWhite(l[i]) /\ \A j \in 1..(i - 1) : IsLitWhite(l[j])
RECURSIVE Emit(_, _, _)
Emit(acc, n, cond) ==
  LET Put(s) == [acc EXCEPT !.o = @ \o s]
      Here == [acc EXCEPT !.m = Append(@, Len(acc.o) + 1)]
  IN CASE n.k = "w" -> Put(n.v)
       [] n.k = "t" -> IF ~Seen(n, cond, FALSE) THEN Put(ItemsText(n.v))
                       ELSE [o |-> acc.o \o ItemsText(n.v), m |-> Append(acc.m, Len(acc.o) + 1 + (IF cond THEN FirstSolid(n.v) - 1 ELSE 0))]
       [] n.k = "d" -> [Here EXCEPT !.o = @ \o sCd \o n.v \o sDc]
       [] n.k = "c" -> [Here EXCEPT !.o = @ \o sCo \o n.v \o sOc]
       [] n.k = "u" -> [Here EXCEPT !.o = @ \o <<LT>> \o n.v \o <<GT>>]
       [] n.k = "x" -> [Here EXCEPT !.o = @ \o sXm \o Flat(Map(LAMBDA p : p.w \o PairText(p), n.a)) \o n.w \o sLmx]
       [] n.k = "e" -> LET A == FoldLeft(LAMBDA a, p : [o |-> a.o \o p.w \o PairText(p), m |-> Append(a.m, Len(a.o) + Len(p.w) + 1)], [Here EXCEPT !.o = @ \o <<LT>> \o n.v], n.a)
                       IN IF n.sc THEN [A EXCEPT !.o = @ \o n.w \o sEnd2]
                          ELSE LET C == FoldLeft(LAMBDA a, m : Emit(a, m, cond), [A EXCEPT !.o = @ \o n.w \o <<GT>>], n.c) IN [C EXCEPT !.o = @ \o sClose \o n.v \o <<GT>>]
EmitDoc(l, cond) == FoldLeft(LAMBDA a, n : Emit(a, n, cond), [o |-> <<>>, m |-> <<>>], l)
\* the encoding that counts: the one given, else that of the mark, else that of the declaration
Utf8Names == {TLCEval(<<>>), TLCEval(S("UTF-8")), TLCEval(S("utf-8")), TLCEval(S("UTF8"))}
IsUtf8(given, bom, l) == given = "utf8" \/ (given = "unknown" /\ (bom \/ \E i \in 1..Len(l) : l[i].k = "x" /\ DeclVal(l[i].a, 2) \in Utf8Names))
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
\* row and column of a place
Place(o, p, tab, utf8) ==
  LET F(s, i) == LET c == o[i] IN
        IF c \in {LF, CR} THEN IF s.last = (IF c = LF THEN CR ELSE LF) THEN [s EXCEPT !.last = 0] ELSE [r |-> s.r + 1, c |-> 0, last |-> c]
        ELSE IF c = TAB THEN [r |-> s.r, c |-> (s.c \div tab + 1) * tab, last |-> 0]
        ELSE IF c = BOM THEN [s EXCEPT !.last = 0]
        ELSE [r |-> s.r, c |-> s.c + (IF utf8 THEN 1 ELSE Bytes(c)), last |-> 0]
      z == FoldLeft(F, [r |-> 0, c |-> 0, last |-> 0], [i \in 1..(p - 1) |-> i])
  IN <<z.r + 1, z.c + 1>>
(* ------------------------------- editing -------------------------------- *)
RECURSIVE At(_, _), PutAt(_, _, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n.c[p[1]], Tail(p))
PutAt(n, p, m) == IF p = <<>> THEN m ELSE [n EXCEPT !.c[p[1]] = PutAt(@, Tail(p), m)]
RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION {{<<i>> \o q : q \in Paths(n.c[i])} : i \in 1..Len(n.c)}
Put1(n, i, m) == [n EXCEPT !.c = SubSeq(@, 1, i - 1) \o <<m>> \o SubSeq(@, i, Len(@))]
Change(n, i, m) == [n EXCEPT !.c[i] = m]
Drop(n, i) == [n EXCEPT !.c = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Wipe(n) == [n EXCEPT !.c = <<>>]
AttrIx(n, a) == LET K == {i \in 1..Len(n.a) : n.a[i][1] = a} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : TRUE
PutAttr(n, a, v) == LET i == AttrIx(n, a) IN IF i = 0 THEN [n EXCEPT !.a = Append(@, <<a, v>>)] ELSE [n EXCEPT !.a[i] = <<a, v>>]
DelAttr(n, a) == LET i == AttrIx(n, a) IN IF i = 0 THEN n ELSE [n EXCEPT !.a = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
\* children and siblings by value and kind; 0: none
Fits(m, v, any, el) == (any \/ m.v = v) /\ (el => m.k = "e")
FirstFit(c, from, v, any, el) == LET K == {i \in from..Len(c) : Fits(c[i], v, any, el)} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i <= j
LastFit(c, to, v, any, el) == LET K == {i \in 1..to : Fits(c[i], v, any, el)} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i >= j
NthFit(c, n, v, any, el) == LET K == SelectSeq([i \in 1..Len(c) |-> i], LAMBDA i : Fits(c[i], v, any, el)) IN IF n < Len(K) THEN K[n + 1] ELSE 0
\* the integer a value begins with: whether there is one, and which
Digit(c) == c >= 48 /\ c <= 57
IntOf(v) == LET s == IF v # <<>> /\ v[1] \in {43, 45} THEN 1 ELSE 0
                K == {n \in 0..(Len(v) - s) : \A i \in 1..n : Digit(v[s + i])}
                n == CHOOSE k \in K : \A j \in K : j <= k
                x == FoldLeft(LAMBDA a, i : a * 10 + v[s + i] - 48, 0, [i \in 1..n |-> i])
            IN IF n = 0 THEN <<FALSE, 0>> ELSE <<TRUE, IF s = 1 /\ v[1] = 45 THEN -x ELSE x>>
(* the source an output is: no layout beyond what the printer adds          *)
EncItem(c) == IF c \in {LT, GT, AMP, QUOT, APOS} THEN <<c, 1>> ELSE IF c < 16 THEN <<c, 4>> ELSE <<c, 0>>
RECURSIVE AsSource(_)
AsSource(n) ==
  CASE n.k = "t" -> [k |-> "t", v |-> Map(EncItem, n.v)]
    [] n.k \in {"d", "c", "u"} -> [k |-> n.k, v |-> n.v]
    [] n.k = "x" -> [k |-> "x", w |-> <<SP>>, a |-> LET K == SelectSeq(<<1, 2, 3>>, LAMBDA i : n.a[i] # <<>>) IN [j \in 1..Len(K) |-> [w |-> <<SP>>, n |-> Keys[K[j]], w1 |-> <<>>, w2 |-> <<>>, q |-> QUOT, v |-> Map(LAMBDA c : <<c, 0>>, n.a[K[j]])]]]
    [] n.k = "e" -> [k |-> "e", v |-> n.v, a |-> Map(LAMBDA p : [w |-> <<SP>>, n |-> p[1], w1 |-> <<>>, w2 |-> <<>>, q |-> IF Has(p[2], QUOT) THEN APOS ELSE QUOT, v |-> Map(EncItem, p[2])], n.a),
                     w |-> IF n.c = <<>> THEN <<SP>> ELSE <<>>, sc |-> n.c = <<>>, c |-> Map(AsSource, n.c)]
=============================================================================
