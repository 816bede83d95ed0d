------------------------------- MODULE LogConf ------------------------------
(* Configuring the categories by a file of properties: lines "key = value"   *)
(* with comments, prefixes and variables; appenders with layout and          *)
(* threshold; categories with priority, appenders and additivity.            *)
EXTENDS Log
\* a configuration: vars <<name, value>>, aps [n, type, file, append, lay, thr], cts [c, prio, aps (names), add]
\* values as they are written; "" where the line is left out (prio: no name)
\* what a value with variables means; pieces <<"lit" or "var", text>>
RECURSIVE Value(_, _)
Lookup(vs, n) == IF \E i \in 1..Len(vs) : vs[i][1] = n THEN vs[CHOOSE i \in 1..Len(vs) : vs[i][1] = n][2] ELSE ""
Value(vs, ps) == IF ps = <<>> THEN "" ELSE (IF ps[1][1] = "lit" THEN ps[1][2] ELSE Lookup(vs, ps[1][2])) \o Value(vs, Tail(ps))
RECURSIVE Written(_)
Written(ps) == IF ps = <<>> THEN "" ELSE (IF ps[1][1] = "lit" THEN ps[1][2] ELSE "${" \o ps[1][2] \o "}") \o Written(Tail(ps))
PrioOf(s) == IF s = "" THEN NOTSET ELSE IF s = "EMERG" THEN 0 ELSE IF s = "650" THEN 650 ELSE Prios[CHOOSE i \in 1..10 : Prios[i].n = s].v
KnownPrio(s) == s \in {"", "EMERG", "650"} \/ \E i \in 1..10 : Prios[i].n = s
KnownTypes == {"FileAppender", "ConsoleAppender", "RollingFileAppender", "AbortAppender"}
KnownLayouts == {"basic", "simple", "pattern", "default"}
Names(cf) == {cf.aps[i].n : i \in 1..Len(cf.aps)}
\* is there something to complain about
ApOk(a) == a.type \in KnownTypes /\ a.lay.k \in KnownLayouts /\ KnownPrio(a.thr)
CtOk(cf, t) == KnownPrio(t.prio) /\ (t.c = 1 => PrioOf(t.prio) # NOTSET) /\ \A i \in 1..Len(t.aps) : t.aps[i] \in Names(cf)
Valid(cf) == (\A i \in 1..Len(cf.aps) : ApOk(cf.aps[i])) /\ (\E i \in 1..Len(cf.cts) : cf.cts[i].c = 1) /\ (\A i \in 1..Len(cf.cts) : CtOk(cf, cf.cts[i]))
\* appenders that exist: sequence of [out (0: console, else the number of a file), lay, thr, fil]
Made(cf, i) == LET a == cf.aps[i] IN [out |-> IF a.type = "ConsoleAppender" THEN 0 ELSE a.file, lay |-> a.lay, thr |-> PrioOf(a.thr), fil |-> <<>>]
IndexOf(cf, n) == CHOOSE i \in 1..Len(cf.aps) : cf.aps[i].n = n
\* a category mentioned gets exactly what is said about it, from the appenders that start at base
RECURSIVE SetCats(_, _, _, _)
SetCats(cs, cf, base, i) == IF i > Len(cf.cts) THEN cs ELSE
   LET t == cf.cts[i] d == Create(cs, t.c) IN
   SetCats(TLCEval([d EXCEPT ![t.c] = [@ EXCEPT !.p = PrioOf(t.prio), !.add = (t.add \in {"", "true"}), !.own = {},
                                               !.apps = {base + IndexOf(cf, t.aps[k]) : k \in 1..Len(t.aps)}]]), cf, base, i + 1)
\* opening a file without append empties it; the appenders are made in the order of their names
RECURSIVE Opened(_, _, _)
Opened(fs, cf, i) == IF i > Len(cf.aps) THEN fs ELSE
   LET a == cf.aps[i] IN Opened(IF a.type = "ConsoleAppender" \/ a.append \in {"", "true"} THEN fs ELSE TLCEval([fs EXCEPT ![a.file] = ""]), cf, i + 1)
\* an event: text for every output
OutText(cs, c, as, o, p, m, e) == LET RECURSIVE T(_, _)
      T(k, n) == IF n = 0 THEN "" ELSE LayoutText(as[k].lay, e) \o T(k, n - 1)
      RECURSIVE A(_)
      A(k) == IF k > Len(as) THEN "" ELSE (IF as[k].out = o /\ Takes(as[k], p, m) THEN T(k, Times(cs, c, k)) ELSE "") \o A(k + 1)
   IN A(1)
DefaultPat == "%d{%H:%M:%S.%l} %6p %20f:%-3l %m   (%c)%n"
StderrL == [k |-> "pattern", ps |-> <<Lit("TIME "), Conv("p", 6, 0, FALSE, 0), Lit(" "), Conv("f", 20, 0, FALSE, 0), Lit(":"), Conv("l", 3, 0, TRUE, 0), Lit(" "),
                                      Conv("m", 0, 0, FALSE, 0), Lit("   ("), Conv("c", 0, 0, FALSE, 0), Lit(")"), Conv("n", 0, 0, FALSE, 0)>>]
\* no file: an appender for the errors at the root, INFO, events from NOTICE
Default(cs, k) == LET d == Create(Create(cs, 1), 3) IN [d EXCEPT ![1] = [@ EXCEPT !.p = 600, !.add = FALSE, !.apps = @ \cup {k}, !.own = {k}], ![3] = [@ EXCEPT !.p = 500]]
=============================================================================
