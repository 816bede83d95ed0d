------------------------------- MODULE LogGen -------------------------------
(* Behaviours of the category tree with appenders that keep what they get;  *)
(* two threads with a context each; layouts on events of their own.         *)
EXTENDS Log, Gen
VARIABLES cats, apps, fx, ndc
R(lo, hi) == RandomElement(lo..hi)
RI(S, h) == RandomElement(S)
The(S) == CHOOSE a \in S : TRUE
NA == 4
NoApp == [live |-> FALSE, thr |-> NOTSET, lay |-> [k |-> "default", ps |-> <<>>], fil |-> <<>>]
NoFx == [live |-> FALSE, c |-> 2, x |-> "", p |-> NOTSET]
Exc == <<[exc |-> ""]>>
B(x) == IF x THEN 1 ELSE 0
KeepA == UNCHANGED apps
KeepX == UNCHANGED <<fx, ndc>>
Keep == UNCHANGED <<cats, apps, fx, ndc>>
AllP == {0, 100, 200, 300, 400, 500, 600, 700, 750}
PrioR(h) == IF R(1, 6) = 1 THEN RI({50, 350, 650, 701, 799}, h) ELSE RI(AllP, h)
Msgs == {"", "hello", "x", "two words", "50% done", "a longer message, with signs {}%n", "tail "}
\* ---- pieces
LitS == {" ", "-", " - [", "]", ": ", "abc", "|}", "a.b"}
Width(h) == IF R(1, 2) = 1 THEN 0 ELSE RI({1, 3, 8, 20}, h)
Cv(k, h) == The({Conv(k, n, x, n > 0 /\ l = 1, IF k = "c" THEN a ELSE IF k = "d" THEN b ELSE 0)
                 : n \in {Width(h)}, x \in {IF R(1, 3) = 1 THEN RI({1, 2, 5}, h) ELSE 0}, l \in {R(0, 1)}, a \in {R(0, 3)}, b \in {R(1, Len(Dates))}})
Piece(h, ks) == IF R(1, 3) = 1 THEN Lit(RI(LitS, h)) ELSE IF R(1, 5) = 1 THEN Conv(RI({"n", "%"}, h), 0, 0, FALSE, 0) ELSE The({Cv(k, h) : k \in {RI(ks, h)}})
Layout(h, ks) == The({[k |-> k, ps |-> IF k = "pattern" THEN TLCEval([i \in 1..n |-> Piece(<<h, i>>, ks)]) ELSE <<>>]
                      : k \in {RI({"basic", "simple", "pattern", "pattern", "pattern", "default"}, h)}, n \in {R(1, 6)}})
LiveK == {"c", "m", "p", "x", "F", "f", "l", "c", "m"}
LArgs(l) == <<l.k, PatSource(l.ps)>>
\* ---- categories
Tree(cs) == cats' = cs /\ KeepA /\ KeepX
Shown(cs, c) == <<cs[c].p, Eff(cs, c)>>
DoGet == \E c \in {R(1, NC)} : \E cs \in {Create(cats, c)} : Tree(cs) /\
         Record("get", <<NameOf(c), R(0, 1)>>, <<B(cats[c].ex), Cardinality({d \in 1..NC : cs[d].ex})>> \o
                SelectSeq(TLCEval([d \in 1..NC |-> IF cs[d].ex THEN NameOf(d) ELSE "-"]), LAMBDA s : s # "-") \o Shown(cs, c))
DoSetPrio == \E c \in {R(1, NC)}, p \in {IF R(1, 3) = 1 THEN NOTSET ELSE PrioR(hist)} : \E cs \in {Create(cats, c)} :
             IF c = 1 /\ p = NOTSET THEN Tree(cs) /\ Record("prio", <<NameOf(c), p>>, Exc)
             ELSE Tree(SetPrio(cs, c, p)) /\ Record("prio", <<NameOf(c), p>>, Shown(SetPrio(cs, c, p), c))
DoAdd == \E c \in {R(1, NC)}, b \in {RI(BOOLEAN, hist)} : \E cs \in {Create(cats, c)} : Tree([cs EXCEPT ![c].add = b]) /\ Record("additive", <<NameOf(c), B(b)>>, <<B(cats[c].add)>>)
\* all priorities as the categories see them
DoShow == \E p \in {PrioR(hist)} : \E l \in {SelectSeq([c \in 1..NC |-> c], LAMBDA c : cats[c].ex)} : Keep /\
          Record("show", <<p>>, <<B(cats[1].ex)>> \o (IF ~cats[1].ex THEN <<>> ELSE [i \in 1..4*Len(l) |-> LET c == l[((i - 1) \div 4) + 1] IN
             CASE i % 4 = 1 -> NameOf(c) [] i % 4 = 2 -> cats[c].p [] i % 4 = 3 -> Eff(cats, c) [] OTHER -> B(Enabled(cats, c, p))]))
\* ---- appenders
App(a) == apps' = a /\ UNCHANGED cats /\ KeepX
DoNew == \E a \in {R(1, NA)}, l \in {Layout(hist, LiveK)}, t \in {IF R(1, 2) = 1 THEN NOTSET ELSE PrioR(hist)} :
         IF apps[a].live THEN App([apps EXCEPT ![a].thr = t]) /\ Record("threshold", <<a, t>>, <<t>>)
         ELSE App([apps EXCEPT ![a] = [NoApp EXCEPT !.live = TRUE, !.lay = l, !.thr = t]]) /\ Record("new", <<a, t>> \o LArgs(l), <<>>)
DoLayout == \E a \in {R(1, NA)}, l \in {Layout(hist, LiveK)} :
            IF apps[a].live THEN App([apps EXCEPT ![a].lay = l]) /\ Record("layout", <<a>> \o LArgs(l), <<>>) ELSE Keep /\ Record("nothing", <<>>, <<>>)
DoFilter == \E a \in {R(1, NA)}, n \in {R(0, 3)} : \E f \in {TLCEval([i \in 1..n |-> <<RI(Msgs, <<hist, i>>), RI({"deny", "accept", "neutral"}, <<hist, i>>)>>])} :
            IF apps[a].live THEN App([apps EXCEPT ![a].fil = f]) /\ Record("filter", <<a, n>> \o [i \in 1..2*n |-> f[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]], <<>>)
            ELSE Keep /\ Record("nothing", <<>>, <<>>)
LiveOf(as) == [a \in 1..NA |-> B(as[a].live)]
DoAttach == \E c \in {R(1, NC)}, a \in {R(1, NA)}, o \in {RI(BOOLEAN, hist)} : \E cs \in {Create(cats, c)} :
            IF ~apps[a].live \/ Owned(cats, a) THEN Keep /\ Record("nothing", <<>>, <<>>)
            ELSE \E own \in {o /\ Attached(cats, a) = {}} : Tree(Attach(cs, c, a, own)) /\ Record("attach", <<NameOf(c), a, B(own)>>, <<B(own), Cardinality(Attach(cs, c, a, own)[c].apps)>>)
DoDetach == \E c \in {R(1, NC)}, a \in {R(1, NA)} : \E cs \in {Create(cats, c)}, as \in {IF a \in cats[c].own THEN [apps EXCEPT ![a] = NoApp] ELSE apps} :
            IF ~apps[a].live THEN Keep /\ Record("nothing", <<>>, <<>>)
            ELSE cats' = Detach(cs, c, a) /\ apps' = as /\ KeepX /\ Record("detach", <<NameOf(c), a>>, LiveOf(as))
Without(as, S) == TLCEval([a \in 1..NA |-> IF a \in S THEN NoApp ELSE as[a]])
DoDetachAll == \E c \in {R(1, NC)} : \E cs \in {Create(cats, c)}, as \in {Without(apps, cats[c].own)} :
               cats' = DetachAll(cs, c) /\ apps' = as /\ KeepX /\ Record("detachall", <<NameOf(c)>>, LiveOf(as))
DoShutdown == \E as \in {Without(apps, {a \in 1..NA : Owned(cats, a)})} : cats' = TLCEval([c \in 1..NC |-> [cats[c] EXCEPT !.apps = {}, !.own = {}]]) /\ apps' = as /\ KeepX
              /\ Record("shutdown", <<>>, LiveOf(as))
DoDelete == \E a \in {R(1, NA)} : IF apps[a].live /\ Attached(cats, a) = {} THEN \E as \in {Without(apps, {a})} : App(as) /\ Record("delete", <<a>>, LiveOf(as))
            ELSE Keep /\ Record("nothing", <<>>, <<>>)
DoAppenders == \E c \in {R(1, NC)}, a \in {R(1, NA)} : \E cs \in {Create(cats, c)} : Tree(cs)
               /\ Record("appenders", <<NameOf(c), a>>, <<Cardinality(cs[c].apps)>> \o TLCEval([b \in 1..NA |-> B(b \in cs[c].apps)]) \o TLCEval([b \in 1..NA |-> B(b \in cs[c].own)])
                         \o <<B(a \in cs[c].apps), B(apps[a].live)>>)
\* ---- events: what every appender gets for the texts tx(a) of one event
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Got(cs, c, as, p, m, e) == LET g(a) == IF as[a].live /\ Takes(as[a], p, m) THEN Rep(<<LayoutText(as[a].lay, e)>>, Times(cs, c, a)) ELSE <<>>
                           IN  TLCEval([a \in 1..NA |-> g(a)])
RECURSIVE FlatG(_, _)
FlatG(g, a) == IF a > NA THEN <<>> ELSE <<Len(g[a])>> \o g[a] \o FlatG(g, a + 1)
Flat(g) == FlatG(g, 1)
None == TLCEval([a \in 1..NA |-> <<>>])
\* the ways to log; two of them know where they are called from
Ways == {"string", "printf", "logva", "level", "levelf", "macro", "macro", "stream", "at"}
DoLog == \E c \in {R(1, NC)}, w \in {RI(Ways, hist)}, p0 \in {PrioR(hist)}, m \in {RI(Msgs, hist)}, t \in {R(0, 1)}, f \in {R(1, 6)}, l \in {R(1, 9999)} :
         \E p \in {IF w \in {"level", "levelf", "macro"} THEN RI(AllP, hist) ELSE p0}, cs \in {Create(cats, c)} :
         \E e \in {Event(c, m, Words(ndc[t + 1]), p, IF w = "macro" THEN 7 ELSE IF w = "at" THEN f ELSE 1, IF w = "macro" THEN 77 ELSE IF w = "at" THEN l ELSE 0, 0, 0)} :
         Tree(cs) /\ Record("log", <<t, NameOf(c), w, p, m, Files[f][1], l>>, Flat(IF Enabled(cs, c, p) THEN Got(cs, c, apps, p, m, e) ELSE None))
\* long formatted messages
RECURSIVE Long(_)
Long(n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN "y" \o Long(n - 1) ELSE LET h == Long(n \div 2) IN h \o h
DoLong == \E c \in {R(1, NC)}, n \in {RI({1, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 5000}, hist)}, w \in {RI({"printf", "logva", "levelf"}, hist)} :
          \E p \in {RI({100, 300}, hist)}, cs \in {Create(cats, c)}, m \in {Long(n)} : \E e \in {Event(c, m, Words(ndc[1]), p, 1, 0, 0, 0)} :
          Tree(cs) /\ Record("long", <<NameOf(c), w, p, n>>, Flat(IF Enabled(cs, c, p) THEN Got(cs, c, apps, p, m, e) ELSE None))
\* streams
Items(n, h) == TLCEval([i \in 1..n |-> LET k == RI({"text", "text", "width", "left", "eol", "flush", "sep"}, <<h, i>>)
                                       IN  <<k, IF k = "text" THEN RI({"ab", "", "12", "some text"}, <<h, i>>) ELSE IF k = "width" THEN RI({0, 2, 7}, <<h, i>>) ELSE 0>>])
RECURSIVE Send(_, _, _, _, _)
Send(cs, c, p, ms, g) == IF ms = <<>> THEN g ELSE
   LET h == Got(cs, c, apps, p, ms[1], Event(c, ms[1], Words(ndc[1]), p, 1, 0, 0, 0)) IN Send(cs, c, p, Tail(ms), TLCEval([a \in 1..NA |-> g[a] \o h[a]]))
DoStream == \E c \in {R(1, NC)}, p \in {RI({100, 600, 700}, hist)}, n \in {R(0, 6)}, w \in {R(0, 2)} : \E its \in {Items(n, hist)}, cs \in {Create(cats, c)} :
            \E z \in {StreamAll(StreamStart, its)} : Tree(cs) /\
            Record("stream", <<NameOf(c), p, w, n>> \o [i \in 1..2*n |-> its[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]],
                   Flat(IF Enabled(cs, c, p) THEN Send(cs, c, p, z.sent, None) ELSE None))
\* ---- categories with a context of their own
Fx(f) == fx' = f /\ UNCHANGED <<apps, ndc>>
FxEff(cs, f) == IF f.p # NOTSET THEN f.p ELSE Eff(cs, Par(f.c))
DoFixed == \E k \in {R(1, 2)}, c \in {R(2, NC)}, x \in {RI({"", "client 1", "c2"}, hist)}, w \in {R(1, 4)} : \E cs \in {Create(cats, c)} :
           IF ~fx[k].live THEN cats' = cs /\ Fx([fx EXCEPT ![k] = [live |-> TRUE, c |-> c, x |-> x, p |-> NOTSET]]) /\ Record("fixed", <<k, NameOf(c), x>>, <<Eff(cs, Par(c))>>)
           ELSE UNCHANGED cats /\ (IF w = 1 THEN Fx([fx EXCEPT ![k] = NoFx]) /\ Record("unfix", <<k>>, <<>>)
                ELSE IF w = 2 THEN Fx([fx EXCEPT ![k].x = x]) /\ Record("context", <<k, x>>, <<x>>)
                ELSE \E p \in {IF R(1, 2) = 1 THEN NOTSET ELSE PrioR(hist)} : \E f \in {[fx EXCEPT ![k].p = p]} : Fx(f) /\ Record("fixedprio", <<k, p>>, <<p, FxEff(cats, f[k])>>))
DoFixedLog == \E k \in {R(1, 2)}, p \in {PrioR(hist)}, m \in {RI(Msgs, hist)}, w \in {RI({"string", "printf"}, hist)} :
              Keep /\ IF ~fx[k].live THEN Record("nothing", <<>>, <<>>)
                      ELSE \E e \in {Event(fx[k].c, m, fx[k].x, p, 1, 0, 0, 0)} :
                           Record("fixedlog", <<k, w, p, m>>, Flat(IF FxEff(cats, fx[k]) >= p THEN Got(cats, fx[k].c, apps, p, m, e) ELSE None))
\* ---- contexts
Ndc(n, t) == ndc' = [ndc EXCEPT ![t + 1] = n] /\ UNCHANGED <<cats, apps, fx>>
DoNdc == \E t \in {R(0, 1)}, w \in {RI({"push", "push", "push", "pop", "pop", "clear", "get", "inherit"}, hist)}, x \in {RI({"one", "two", "", "t w o"}, hist)} : \E s \in {ndc[t + 1]} :
         IF w = "push" THEN Ndc(Append(s, x), t) /\ Record("push", <<t, x>>, <<Words(Append(s, x)), Len(s) + 1>>)
         ELSE IF w = "pop" THEN IF s = <<>> THEN Ndc(s, t) /\ Record("pop", <<t>>, <<"", "", 0>>)
                                ELSE \E r \in {Front1(s)} : Ndc(r, t) /\ Record("pop", <<t>>, <<s[Len(s)], Words(r), Len(r)>>)
         ELSE IF w = "clear" THEN Ndc(<<>>, t) /\ Record("clear", <<t>>, <<"", 0>>)
         ELSE IF w = "inherit" THEN \E r \in {ndc[2 - t]} : Ndc(r, t) /\ Record("inherit", <<t>>, <<Words(r), Len(r)>>)
         ELSE Ndc(s, t) /\ Record("context?", <<t>>, <<Words(s), Len(s)>>)
\* ---- layouts on events of any time
AllK == LiveK \cup {"R", "d", "d"}
DoFormat == \E l \in {Layout(hist, AllK)}, c \in {R(1, NC)}, m \in {RI(Msgs, hist)}, x \in {RI({"", "ctx"}, hist)}, p \in {PrioR(hist)}, f \in {R(1, 6)}, n \in {R(0, 500)}, t \in {R(1, 5)}, ms \in {RI({0, 5, 45, 999}, hist)} :
            Keep /\ Record("format", LArgs(l) \o <<NameOf(c), m, x, p, Files[f][1], n, Moments[t][1], ms>>, <<LayoutText(l, Event(c, m, x, p, f, n, t, ms))>>)
DoElapsed == \E s \in {R(0, 100000)} : Keep /\ Record("elapsed", <<s>>, <<ToString(s * 1000)>>)
BadPats == {"%", "abc%", "%q", "%m%", "%5", "%-", "%.m", "%-m", "%m %y", "%5.", "%{x}"}
DoBadPattern == Keep /\ Record("badpattern", <<RI(BadPats, hist)>>, Exc)
\* a precision that is no positive number: the whole name
DoWholeName == \E c \in {R(1, NC)}, s \in {RI({"0", "-1", "x"}, hist)} : Keep /\ Record("format", <<"pattern", "<%c{" \o s \o "}>", NameOf(c), "m", "", 600, "", 0, 0, 0>>, <<"<" \o NameOf(c) \o ">">>)
DoPrioName == \E p \in {IF R(1, 3) = 1 THEN RI({800, 801, -1 + 1, 123}, hist) ELSE PrioR(hist)} : Keep /\ Record("prioname", <<p>>, <<PrioName(p)>>)
DoPrioValue == \E k \in {R(1, 10)}, w \in {R(1, 4)}, n \in {R(0, 900)} : Keep /\
               IF w = 1 THEN Record("priovalue", <<ToString(n)>>, <<n>>) ELSE IF w = 2 THEN Record("priovalue", <<RI({"Info", "INFOX", "12a", "WARNING"}, hist)>>, Exc)
               ELSE IF w = 3 THEN Record("priovalue", <<"EMERG">>, <<0>>) ELSE Record("priovalue", <<Prios[k].n>>, <<Prios[k].v>>)
\* ---- several threads at once: every appender in one place only
DoThreads == \E k \in {R(2, 4)}, n \in {R(1, 40)}, p \in {RI({100, 600, 700}, hist)} : \E cl \in {TLCEval([i \in 1..k |-> RI({c \in 1..NC : TRUE}, <<hist, i>>)])} :
             LET cs == cats ok == /\ \A i \in 1..k : cats[cl[i]].ex
                                  /\ \A a \in 1..NA : Cardinality(Attached(cats, a)) <= 1 /\ apps[a].fil = <<>> IN
             Keep /\ IF ~ok THEN Record("nothing", <<>>, <<>>)
             ELSE LET cnt(a, i) == IF apps[a].live /\ Enabled(cs, cl[i], p) /\ Takes(apps[a], p, "") THEN n * Times(cs, cl[i], a) ELSE 0
                  IN  Record("threads", <<n, p, k>> \o [i \in 1..k |-> NameOf(cl[i])], TLCEval([j \in 1..NA*k |-> cnt(((j - 1) \div k) + 1, ((j - 1) % k) + 1)]))
\* ---- datagrams
DoSyslog == \E fac \in {RI({1, 3, 16, 23}, hist)}, p \in {IF R(1, 4) = 1 THEN RI({750, 50, 150}, hist) ELSE RI(AllP, hist)}, n \in {RI({1, 50, 890, 895, 896, 897, 898, 1795, 2000, 3000}, hist)} :
            \E pre \in {"<" \o ToString(fac * 8 + Severity(p)) \o ">"} : \E d \in {Datagrams(n, Len(pre))} : Keep /\ Record("syslog", <<fac * 8, p, n>>, <<pre, Len(d)>> \o d)
GenInit == GenStart /\ cats = NoCats /\ apps = [a \in 1..NA |-> NoApp] /\ fx = [k \in 1..2 |-> NoFx] /\ ndc = <<<<>>, <<>>>>
Choices == <<"get", "prio", "prio", "prio", "add", "show", "show", "new", "new", "layout", "filter", "attach", "attach", "attach", "attach", "detach", "detachall", "shutdown", "delete", "appenders",
             "log", "log", "log", "log", "log", "log", "long", "stream", "stream", "fixed", "fixed", "fixedlog", "ndc", "ndc", "format", "format", "elapsed", "badpattern", "whole", "prioname", "priovalue", "threads", "syslog">>
Step(k) == CASE Choices[k] = "get" -> DoGet [] Choices[k] = "prio" -> DoSetPrio [] Choices[k] = "add" -> DoAdd [] Choices[k] = "show" -> DoShow [] Choices[k] = "new" -> DoNew
             [] Choices[k] = "layout" -> DoLayout [] Choices[k] = "filter" -> DoFilter [] Choices[k] = "attach" -> DoAttach [] Choices[k] = "detach" -> DoDetach
             [] Choices[k] = "detachall" -> (IF R(1, 4) = 1 THEN DoDetachAll ELSE DoLog) [] Choices[k] = "shutdown" -> (IF R(1, 6) = 1 THEN DoShutdown ELSE DoLog) [] Choices[k] = "delete" -> DoDelete
             [] Choices[k] = "appenders" -> DoAppenders [] Choices[k] = "log" -> DoLog [] Choices[k] = "long" -> DoLong [] Choices[k] = "stream" -> DoStream
             [] Choices[k] = "fixed" -> DoFixed [] Choices[k] = "fixedlog" -> DoFixedLog [] Choices[k] = "ndc" -> DoNdc [] Choices[k] = "format" -> DoFormat
             [] Choices[k] = "elapsed" -> DoElapsed [] Choices[k] = "badpattern" -> DoBadPattern [] Choices[k] = "whole" -> DoWholeName
             [] Choices[k] = "prioname" -> DoPrioName [] Choices[k] = "priovalue" -> DoPrioValue [] Choices[k] = "threads" -> DoThreads [] OTHER -> DoSyslog
GenNext == IF More THEN \E k \in {R(1, Len(Choices))} : Step(k) ELSE Finish /\ Keep
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted, cats, apps, fx, ndc>>
=============================================================================
