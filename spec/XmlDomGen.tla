----------------------------- MODULE XmlDomGen -----------------------------
(* Two documents edited, searched, copied, walked and written; after every    *)
(* step all of both is looked at, every link between nodes included.          *)
EXTENDS XmlGen
VARIABLE docs
dvars == <<hist, emitted, docs>>
Empty == [k |-> "#", v |-> <<>>, a |-> <<>>, c |-> <<>>]
RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA a, m : a + Size(m), 0, n.c)
Both(d) == DumpAll(d[1].c) \o DumpAll(d[2].c)
Holders(n) == {p \in Paths(n) : At(n, p).k \in {"e", "#"}}
Elements(n) == {p \in Paths(n) : At(n, p).k = "e"}
Inner(n) == Paths(n) \ {<<>>}
NumVals == <<S("abc"), <<>>, S("12ab"), S("-"), S("+7"), S("x1"), S("-3"), S("007"), S("2.5"), S("-0.125"), S("1 2")>>
AVal(h) == The({IF g = 1 THEN Few(ValSet, n, h) ELSE NumVals[R(1, Len(NumVals))] : g \in {R(1, 3)}, n \in {R(0, 4)}})
NewNode(d, h) == The({IF g <= 2 THEN Node("t", TVal(h)) ELSE IF g = 3 THEN Node("d", Verbatim((MiscSet \cup {GT}) \ {93, CR}, h)) ELSE IF g = 4 THEN The({Node(m.k, m.v) : m \in {Misc(h)}})
                      ELSE IF g = 5 /\ R(1, 3) = 1 THEN Decl(S("1.0"), RI({<<>>, S("UTF-8")}, h), RI({<<>>, S("yes")}, h)) ELSE TElem(d, h) : g \in {R(1, 10)}})
\* a number in eighths a value begins with
DblOf(v) == LET s == IF v # <<>> /\ v[1] \in {43, 45} THEN 1 ELSE 0
                K == {n \in 0..(Len(v) - s) : \A i \in 1..n : Digit(v[s + i])}
                n == CHOOSE k \in K : \A j \in K : j <= k
                D(i) == IF i <= Len(v) /\ v[s + n + 1] = 46 /\ \A j \in (s + n + 2)..i : Digit(v[j]) THEN v[i] - 48 ELSE 0
                w == FoldLeft(LAMBDA a, i : a * 10 + v[s + i] - 48, 0, [i \in 1..n |-> i])
                f == IF s + n + 1 > Len(v) THEN 0 ELSE (D(s + n + 2) * 100 + D(s + n + 3) * 10 + D(s + n + 4)) \div 125
            IN IF n = 0 THEN <<FALSE, 0>> ELSE <<TRUE, IF s = 1 /\ v[1] = 45 THEN -(8 * w + f) ELSE 8 * w + f>>
Do(op, args, pre, nd) == \E n \in {TLCEval(nd)} : /\ docs' = n
                                                  /\ \E b \in {TLCEval(Both(n))} : Record(op, args, pre \o b)
Same(op, args, exp) == Record(op, args, exp) /\ UNCHANGED docs
Set1(d, p, m) == [docs EXCEPT ![d] = PutAt(@, p, m)]
Path(p) == <<Len(p)>> \o p
DoAdd == \E d \in {RI(1..2, hist)} : \E p \in {RI(Holders(docs[d]), <<hist, 1>>)} : \E h \in {At(docs[d], p)}, n \in {TLCEval(NewNode(RI({0, 0, 1}, hist), hist))} : \E w \in {IF h.c = <<>> THEN R(1, 2) ELSE R(1, 5)} : \E i \in {IF h.c = <<>> THEN 0 ELSE R(1, Len(h.c))} :
         LET q == CASE w <= 2 -> Len(h.c) + 1 [] w = 4 -> i + 1 [] OTHER -> i
         IN Do("add", <<w, d - 1>> \o Path(p) \o <<i>> \o Dump(n), <<q>>, Set1(d, p, IF w = 5 THEN Change(h, i, n) ELSE Put1(h, q, n)))
DoForeign == \E p \in {RI(Holders(docs[1]), <<hist, 1>>)}, w \in {R(1, 8)} : Do("foreign", <<w>> \o Path(p), <<0, 1>>, docs)
DoRemove == \E d \in {RI(1..2, hist)} : \E p \in {RI(Holders(docs[d]), <<hist, 1>>)} : \E h \in {At(docs[d], p)} : IF h.c = <<>> THEN DoAdd
            ELSE \E i \in {R(1, Len(h.c))} : Do("remove", <<d - 1>> \o Path(p) \o <<i>>, <<1>>, Set1(d, p, Drop(h, i)))
DoClear == \E d \in {RI(1..2, hist)} : \E p \in {RI(Holders(docs[d]), <<hist, 1>>)} : Do("clear", <<d - 1>> \o Path(p), <<>>, Set1(d, p, Wipe(At(docs[d], p))))
DoValue == \E d \in {RI(1..2, hist)} : IF Inner(docs[d]) = {} THEN DoAdd ELSE \E p \in {RI(Inner(docs[d]), <<hist, 1>>)} : \E m \in {At(docs[d], p)} :
           \E v \in {CASE m.k = "e" -> Names[R(1, Len(Names))] [] m.k = "t" -> TVal(hist) [] m.k = "d" -> Verbatim((MiscSet \cup {GT}) \ {93, CR}, hist) [] OTHER -> Verbatim(MiscSet \ {45, 93}, hist)} :
           Do("value", <<d - 1>> \o Path(p) \o Str(v), <<>>, Set1(d, p, [m EXCEPT !.v = v]))
DoSet == \E d \in {RI(1..2, hist)} : IF Elements(docs[d]) = {} THEN DoAdd ELSE \E p \in {RI(Elements(docs[d]), <<hist, 1>>)}, w \in {R(1, 10)}, a \in {ANames[R(1, Len(ANames))]}, s \in {AVal(hist)}, n \in {R(-99999, 99999)} : \E m \in {At(docs[d], p)} :
         LET v == CASE w \in {1, 2, 6} -> s [] w \in {3, 4, 7} -> Dec(n) [] OTHER -> Fix(n)
         IN Do("set", <<w, d - 1>> \o Path(p) \o Str(a) \o (CASE w \in {1, 2, 6} -> Str(s) [] w <= 8 -> <<n>> [] OTHER -> <<>>), <<>>, Set1(d, p, IF w >= 9 THEN DelAttr(m, a) ELSE PutAttr(m, a, v)))
Got(r) == <<IF r[1] THEN 0 ELSE 2, IF r[1] THEN r[2] ELSE 0>>
DoQuery == \E d \in {RI(1..2, hist)} : IF Elements(docs[d]) = {} THEN DoAdd ELSE \E p \in {RI(Elements(docs[d]), <<hist, 1>>)} : \E m \in {At(docs[d], p)} :
           \E a \in {IF m.a # <<>> /\ R(1, 4) > 1 THEN m.a[R(1, Len(m.a))][1] ELSE ANames[R(1, Len(ANames))]} : \E i \in {AttrIx(m, a)} : \E v \in {IF i = 0 THEN <<>> ELSE m.a[i][2]} :
           IF v # <<>> /\ v[1] \notin {97, 43, 45, 120} /\ ~Digit(v[1]) THEN DoSet
           ELSE Same("query", <<d - 1>> \o Path(p) \o Str(a),
                     (IF i = 0 THEN <<1, 0, 1, 0, 1, 0, -1, 0, 0, 0>> ELSE Got(IntOf(v)) \o Got(DblOf(v)) \o Got(IntOf(v)) \o Str(v) \o <<IntOf(v)[2], DblOf(v)[2], DblOf(v)[2]>>)
                     \o (IF m.c # <<>> /\ IsText(m.c[1]) THEN Str(m.c[1].v) ELSE <<-1>>))
DoFind == \E d \in {RI(1..2, hist)} : \E p \in {RI(Holders(docs[d]), <<hist, 1>>)} : \E h \in {At(docs[d], p)} : \E i \in {IF h.c = <<>> THEN 0 ELSE R(0, Len(h.c))}, n \in {R(0, 3)}, v \in {IF h.c # <<>> /\ R(1, 3) > 1 THEN h.c[R(1, Len(h.c))].v ELSE Names[R(1, Len(Names))]} :
          LET c == h.c
              z == <<>>
          IN Same("find", <<d - 1>> \o Path(p) \o Str(v) \o <<i, n>>,
               <<FirstFit(c, 1, z, TRUE, FALSE), LastFit(c, Len(c), z, TRUE, FALSE), FirstFit(c, 1, v, FALSE, FALSE), LastFit(c, Len(c), v, FALSE, FALSE), FirstFit(c, 1, z, TRUE, TRUE), FirstFit(c, 1, v, FALSE, TRUE)>>
               \o (IF i = 0 THEN <<>> ELSE <<FirstFit(c, i + 1, z, TRUE, FALSE), LastFit(c, i - 1, z, TRUE, FALSE), FirstFit(c, i + 1, v, FALSE, FALSE), LastFit(c, i - 1, v, FALSE, FALSE), FirstFit(c, i + 1, z, TRUE, TRUE), FirstFit(c, i + 1, v, FALSE, TRUE),
                                             FirstFit(c, i + 1, z, TRUE, FALSE), FirstFit(c, i + 1, v, FALSE, FALSE)>>)
               \o <<NthFit(c, n, z, TRUE, FALSE), NthFit(c, n, v, FALSE, FALSE), NthFit(c, n, z, TRUE, TRUE), NthFit(c, n, v, FALSE, TRUE)>>
               \o <<FirstFit(c, 1, z, TRUE, FALSE), FirstFit(c, 1, v, FALSE, FALSE), FirstFit(c, 1, z, TRUE, TRUE), FirstFit(c, 1, v, FALSE, TRUE), FirstFit(docs[d].c, 1, z, TRUE, TRUE), 1, 0>>)
DoCopy == \E w \in {R(1, 4)} : Do("copy", <<w>>, <<>>, IF w = 4 THEN <<docs[2], docs[1]>> ELSE <<docs[1], docs[1]>>)
DoAssign == IF Elements(docs[1]) = {} \/ Elements(docs[2]) = {} THEN DoAdd ELSE \E p \in {RI(Elements(docs[1]), hist)}, q \in {RI(Elements(docs[2]), hist)} : Do("assign", Path(p) \o Path(q), <<>>, Set1(2, q, At(docs[1], p)))
DoSelf == \E d \in {RI(1..2, hist)} : \E p \in {RI(Holders(docs[d]), <<hist, 1>>)} : Do("self", <<d - 1>> \o Path(p), <<>>, docs)
\* the visitor says no at its stop-th call
RECURSIVE Walked(_, _)
Say(st, k) == [o |-> Append(st.o, k), left |-> st.left - 1, r |-> st.left # 1]
Walked(st, n) ==
  IF n.k \notin {"e", "#"} THEN Say(st, KindNo(n.k))
  ELSE LET s1 == Say(st, IF n.k = "e" THEN 1 ELSE 10)
           s2 == IF s1.r THEN FoldLeft(LAMBDA a, m : IF a.r THEN Walked(a, m) ELSE a, s1, n.c) ELSE s1
       IN Say(s2, IF n.k = "e" THEN 12 ELSE 11)
DoWalk == \E d \in {RI(1..2, hist)}, k \in {R(1, 12)} : \E s \in {Walked([o |-> <<>>, left |-> k, r |-> TRUE], docs[d])} : Same("walk", <<d - 1, k>>, s.o \o <<B(s.r)>>)
DoShow == \E d \in {RI(1..2, hist)} : \E p \in {RI(Holders(docs[d]), <<hist, 1>>)} : Same("show", <<d - 1>> \o Path(p), Str(PrintedDoc(docs[d].c)) \o Str(IF p = <<>> THEN PrettyDoc(docs[d].c, <<>>, <<>>) ELSE Pretty(At(docs[d], p), 0, <<>>, <<>>)))
DomInit == GenStart /\ docs = <<Empty, Empty>>
Big == Size(docs[1]) + Size(docs[2]) > 30
DomNext == IF ~More THEN Finish /\ UNCHANGED docs
           ELSE IF Big THEN \E k \in {R(1, 3)} : IF k = 1 THEN DoClear ELSE DoRemove
           ELSE \E k \in {R(1, 26)} : CASE k <= 7 -> DoAdd [] k = 8 -> DoForeign [] k <= 10 -> DoRemove [] k = 11 -> (IF R(1, 3) = 1 THEN DoClear ELSE DoAdd) [] k <= 13 -> DoValue [] k <= 16 -> DoSet [] k <= 18 -> DoQuery
                                        [] k <= 21 -> DoFind [] k = 22 -> DoCopy [] k = 23 -> DoAssign [] k = 24 -> DoSelf [] k = 25 -> DoWalk [] OTHER -> DoShow
DomSpec == DomInit /\ [][DomNext]_dvars
=============================================================================
