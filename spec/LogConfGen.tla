----------------------------- MODULE LogConfGen -----------------------------
(* Configurations written as property files, good and bad ones, and events   *)
(* logged under them.                                                        *)
EXTENDS LogConf, Gen
VARIABLES cats, as, fs, con, gen, def
R(lo, hi) == RandomElement(lo..hi)
RI(S, h) == RandomElement(S)
The(S) == CHOOSE a \in S : TRUE
B(x) == IF x THEN 1 ELSE 0
NF == 4
FileNames == <<"f1.log", "f2.log", "sub/f3.log", "foobar">>
NoFile == [ex |-> FALSE, s |-> ""]
NoFiles == [f \in 1..NF |-> NoFile]
Msgs == {"", "hello", "x", "two words", "50% done", "with # and = and ${x}"}
ANames == {"A", "A-x", "AB", "z", "A_"}
PrioNames == {"FATAL", "ALERT", "CRIT", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "TRACE", "EMERG", "650", "INFO", "DEBUG"}
\* ---- pieces of patterns
LitS == {" ", "-", " - [", "]", ": ", "abc", "|}", "a.b"}
Ks == {"c", "m", "p", "x", "F", "f", "l", "c", "m"}
Cv(k, h) == The({Conv(k, n, x, n > 0 /\ l = 1, IF k = "c" THEN a ELSE 0) : n \in {IF R(1, 2) = 1 THEN 0 ELSE RI({1, 3, 8, 20}, h)}, x \in {IF R(1, 3) = 1 THEN RI({1, 2, 5}, h) ELSE 0}, l \in {R(0, 1)}, a \in {R(0, 3)}})
Piece(h) == IF R(1, 3) = 1 THEN Lit(RI(LitS, h)) ELSE The({Cv(k, h) : k \in {RI(Ks, h)}})
Layout(h) == The({[k |-> k, ps |-> IF k = "pattern" THEN TLCEval([i \in 1..(n + 2) |-> IF i = 1 THEN Lit("<") ELSE IF i = n + 2 THEN Conv("n", 0, 0, FALSE, 0) ELSE Piece(<<h, i>>)]) ELSE <<>>]
                  : k \in {RI({"basic", "simple", "pattern", "pattern", "pattern", "default"}, h)}, n \in {R(1, 5)}})
\* ---- configurations: distinct names and outputs
RECURSIVE Draw(_, _, _)
Draw(S, n, h) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN The({<<y>> \o Draw(S \ {y}, n - 1, <<h, n>>) : y \in {x}})
Ap(n, o, h) == The({[n |-> n \o ToString(gen), type |-> IF o = 0 THEN "ConsoleAppender" ELSE t, file |-> IF o = 0 THEN 1 ELSE o, append |-> p, lay |-> l, thr |-> q]
                    : t \in {RI({"FileAppender", "FileAppender", "RollingFileAppender"}, h)}, p \in {RI({"", "", "true", "false", "yes"}, h)}, l \in {Layout(h)}, q \in {IF R(1, 2) = 1 THEN "" ELSE RI(PrioNames, h)}})
Cts(cl, nm, h) == TLCEval([i \in 1..Len(cl) |-> The({[c |-> cl[i], prio |-> IF cl[i] = 1 THEN RI(PrioNames, <<h, i>>) ELSE IF R(1, 3) = 1 THEN RI({"", "NOTSET"}, <<h, i>>) ELSE RI(PrioNames, <<h, i>>),
                                                     aps |-> IF nm = {} THEN <<>> ELSE TLCEval([k \in 1..n |-> RI(nm, <<h, i, k>>)]), add |-> RI({"", "", "true", "false", "no"}, <<h, i>>)] : n \in {R(0, 2)}})])
Used(cl) == {as[k].out : k \in {j \in 1..Len(as) : \E c \in 1..NC : j \in cats[c].apps /\ \A i \in 1..Len(cl) : cl[i] # c}}
Vars(h) == TLCEval([i \in 1..3 |-> <<<<"stem", "my.dir", "empty">>[i], <<"f", "sub", "">>[i]>>]) \o <<<<"VPENV", "f">>>>
\* ---- how it is written
FileWritten(f, h) == The({CASE f = 4 -> "" [] f = 3 -> <<"sub/f3.log", "${my.dir}/f3.log", "${my.dir}/${stem}3.log", "${nothing}sub/f3.log">>[w]
                            [] OTHER -> <<FileNames[f], "${stem}" \o ToString(f) \o ".log", "${VPENV}" \o ToString(f) \o ".log", "${empty}f" \o ToString(f) \o ".${nope}log">>[w] : w \in {R(1, 4)}})
TypeW(s, h) == RI({"", "log4cpp.", "org.apache.log4j.", "."}, h) \o s
LayName(k) == CASE k = "basic" -> "BasicLayout" [] k = "simple" -> "SimpleLayout" [] k \in {"pattern", "default"} -> "PatternLayout" [] OTHER -> "WeirdLayout"
Line(k, v) == <<k, v>>
If(b, l) == IF b THEN <<l>> ELSE <<>>
ApLines(a, h) == LET p == "appender." \o a.n IN
   <<Line(p, TypeW(a.type, <<h, 1>>))>> \o If(a.type # "ConsoleAppender" /\ a.file # 4, Line(p \o ".fileName", FileWritten(a.file, h))) \o If(a.append # "", Line(p \o ".append", a.append))
   \o If(a.lay.k # "none", Line(p \o ".layout", TypeW(LayName(a.lay.k), <<h, 2>>))) \o If(a.lay.k = "pattern", Line(p \o ".layout.ConversionPattern", PatSource(a.lay.ps)))
   \o If(a.thr # "", Line(p \o ".threshold", a.thr)) \o If(a.type = "RollingFileAppender", Line(p \o ".maxFileSize", "1000000"))
RECURSIVE Commas(_, _)
Commas(l, h) == IF l = <<>> THEN "" ELSE RI({",", ", ", " ,", ",\t"}, <<h, Len(l)>>) \o l[1] \o Commas(Tail(l), h)
CtLines(t, h) == LET n == IF t.c = 1 THEN "rootCategory" ELSE NameOf(t.c) IN
   <<Line(IF t.c = 1 THEN n ELSE "category." \o n, t.prio \o Commas(t.aps, h))>> \o If(t.add # "", Line("additivity." \o n, t.add))
RECURSIVE ApAll(_, _)
ApAll(l, h) == IF l = <<>> THEN <<>> ELSE ApLines(l[1], <<h, Len(l)>>) \o ApAll(Tail(l), h)
RECURSIVE CtAll(_, _)
CtAll(l, h) == IF l = <<>> THEN <<>> ELSE CtLines(l[1], <<h, Len(l)>>) \o CtAll(Tail(l), h)
B20 == Blanks(20)
Wide == TLCEval(B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20 \o B20)
Deco(l, h) == RI({"", "", " ", "\t "}, <<h, 1>>) \o RI({"", "log4j.", "log4cpp."}, <<h, 2>>) \o l[1] \o RI({"", " "}, <<h, 3>>) \o "=" \o (IF R(1, 12) = 1 THEN Wide ELSE RI({"", " "}, <<h, 4>>)) \o l[2]
              \o RI({"", "", "", " ", "\r", " # note", "#x = y"}, <<h, 5>>)
Junk == {"", "# comment", "no command here", "   ", "other = value", "#rootCategory = DEBUG", "=", "# category.a = DEBUG, A", "log4j = x"}
RECURSIVE Text(_, _)
Text(l, h) == IF l = <<>> THEN <<>> ELSE (IF R(1, 5) = 1 THEN <<RI(Junk, <<h, Len(l), 0>>)>> ELSE <<>>) \o <<Deco(l[1], <<h, Len(l)>>)>> \o Text(Tail(l), h)
Rot(l, k) == IF l = <<>> THEN l ELSE LET n == k % Len(l) IN SubSeq(l, n + 1, Len(l)) \o SubSeq(l, 1, n)
VarLines == <<Line("stem", "f"), Line("my.dir", "sub"), Line("empty", "")>>
Body(cf, ex, h) == The({TLCEval(Text(VarLines \o Rot(l, k), h)) : l \in {TLCEval(ApAll(cf.aps, h) \o CtAll(cf.cts, h) \o ex)}, k \in {R(0, 30)}})
\* ---- bad ones: [cf, extra lines]
Break(cf, w, h) == LET i == IF Len(cf.aps) = 0 THEN 0 ELSE R(1, Len(cf.aps)) j == R(1, Len(cf.cts)) IN
   The({CASE w = "priority" -> [cf |-> [cf EXCEPT !.cts[j2].prio = "LOUD"], ex |-> <<>>]
          [] w = "threshold" /\ i2 # 0 -> [cf |-> [cf EXCEPT !.aps[i2].thr = "Debug"], ex |-> <<>>]
          [] w = "type" /\ i2 # 0 -> [cf |-> [cf EXCEPT !.aps[i2].type = "NoSuchAppender"], ex |-> <<>>]
          [] w = "layout" /\ i2 # 0 -> [cf |-> [cf EXCEPT !.aps[i2].lay.k = "weird"], ex |-> <<>>]
          [] w = "nolayout" /\ i2 # 0 -> [cf |-> [cf EXCEPT !.aps[i2].lay.k = "none"], ex |-> <<>>]
          [] w = "appender" -> [cf |-> [cf EXCEPT !.cts[j2].aps = <<"nobody">>], ex |-> <<>>]
          [] w = "rootless" -> [cf |-> [cf EXCEPT !.cts = SelectSeq(cf.cts, LAMBDA t : t.c # 1)], ex |-> <<>>]
          [] w = "partial" -> [cf |-> cf, ex |-> <<Line("appender.Q.threshold", "WARN")>>]
          [] OTHER -> [cf |-> [cf EXCEPT !.cts[1].prio = RI({"", "NOTSET"}, h)], ex |-> <<>>] : i2 \in {i}, j2 \in {j}})
ShowAll(cs) == LET l == SelectSeq([c \in 1..NC |-> c], LAMBDA c : cs[c].ex) IN
   <<Len(l)>> \o TLCEval([i \in 1..5*Len(l) |-> LET c == l[((i - 1) \div 5) + 1] IN CASE i % 5 = 1 -> NameOf(c) [] i % 5 = 2 -> cs[c].p [] i % 5 = 3 -> Eff(cs, c) [] i % 5 = 4 -> B(cs[c].add) [] OTHER -> Cardinality(cs[c].apps)])
ShowF(f) == TLCEval([i \in 1..2*NF |-> IF i % 2 = 1 THEN B(f[(i + 1) \div 2].ex) ELSE f[i \div 2].s])
Fail(o, x) == cats' = NoCats /\ as' = <<>> /\ fs' = NoFiles /\ con' = <<>> /\ gen' = gen + 1 /\ def' = FALSE /\ Record(o, x, <<[exc |-> ""]>>)
TheFiles(f, cf) == TLCEval([k \in 1..NF |-> IF \E i \in 1..Len(cf.aps) : cf.aps[i].type # "ConsoleAppender" /\ cf.aps[i].file = k
                               THEN [ex |-> TRUE, s |-> Opened([x \in 1..NF |-> f[x].s], cf, 1)[k]] ELSE f[k]])
NewConf(h) == \* root and some others
   The({The({[aps |-> ap, cts |-> Cts(cl, {ap[i].n : i \in 1..Len(ap)}, h)]
        : ap \in {TLCEval([i \in 1..Len(os) |-> Ap(ns[i], os[i], <<h, i>>)]) : os \in {Draw((0..NF) \ Used(cl), na, h)}, ns \in {Draw(ANames, na, <<h, 1>>)}}})
        : cl \in {<<1>> \o Draw(2..NC, R(0, 4), h)}, na \in {R(0, 4)}})
DoConfig == \E cf \in {NewConf(hist)}, w \in {IF R(1, 5) = 1 THEN RI({"priority", "threshold", "type", "layout", "nolayout", "appender", "rootless", "partial", "root"}, hist) ELSE "good"}, o \in {RI({"configure", "configure", "init"}, hist)} :
            IF w # "good"
            THEN \E b \in {Break(cf, w, hist)} : \E t \in {Body(b.cf, b.ex, hist)} : Fail("configure", <<R(0, 1), Len(t)>> \o t)
            ELSE \E t \in {Body(cf, <<>>, hist)}, cs \in {SetCats(cats, cf, Len(as), 1)}, g \in {TheFiles(fs, cf)} :
                 /\ Assert(Valid(cf), "a bad configuration")
                 /\ cats' = cs /\ as' = as \o [i \in 1..Len(cf.aps) |-> Made(cf, i)] /\ fs' = g /\ gen' = gen + 1 /\ UNCHANGED <<con, def>>
                 /\ Record(o, <<R(0, 1), Len(t)>> \o t, ShowAll(cs) \o ShowF(g))
\* no such file: an exception, or the default
DoMissing == \E o \in {RI({"configure?", "init?"}, hist)} :
             IF o = "configure?" \/ def THEN UNCHANGED <<cats, as, fs, con, gen, def>> /\ Record("configure?", <<>>, <<[exc |-> ""]>>)
             ELSE \E cs \in {Default(cats, Len(as) + 1)} : cats' = cs /\ as' = Append(as, [out |-> -1, lay |-> StderrL, thr |-> NOTSET, fil |-> <<>>]) /\ def' = TRUE /\ UNCHANGED <<fs, con, gen>>
                  /\ Record("init?", <<>>, ShowAll(cs) \o ShowF(fs))
DoLog == \E c \in {R(1, NC)}, p \in {RI({0, 100, 200, 300, 400, 500, 600, 650, 700, 750}, hist)}, m \in {RI(Msgs, hist)}, f \in {R(1, 6)}, l \in {R(1, 9999)} :
         \E cs \in {Create(cats, c)}, e \in {Event(c, m, "", p, f, l, 0, 0)} :
         \E t \in {TLCEval([o \in -1..NF |-> IF Enabled(cs, c, p) THEN OutText(cs, c, as, o, p, m, e) ELSE ""])} :
         \E g \in {TLCEval([k \in 1..NF |-> [fs[k] EXCEPT !.s = @ \o t[k]]])} :
         cats' = cs /\ fs' = g /\ UNCHANGED <<as, con, gen, def>> /\ Record("log", <<NameOf(c), p, m, Files[f][1], l>>, <<t[0], t[-1]>> \o ShowF(g))
GenInit == GenStart /\ cats = NoCats /\ as = <<>> /\ fs = NoFiles /\ con = <<>> /\ gen = 1 /\ def = FALSE
GenNext == IF More THEN (IF hist = <<>> \/ R(1, 7) = 1 THEN DoConfig ELSE IF R(1, 15) = 1 THEN DoMissing ELSE DoLog) ELSE Finish /\ UNCHANGED <<cats, as, fs, con, gen, def>>
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted, cats, as, fs, con, gen, def>>
=============================================================================
