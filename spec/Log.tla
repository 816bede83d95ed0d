-------------------------------- MODULE Log ---------------------------------
(* Logging: a tree of categories with priorities and additivity, appenders  *)
(* attached to categories, layouts that turn an event into text, nested     *)
(* diagnostic contexts per thread, configuration by properties.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NOTSET == 800
Prios == <<[v |-> 0, n |-> "FATAL"], [v |-> 100, n |-> "ALERT"], [v |-> 200, n |-> "CRIT"], [v |-> 300, n |-> "ERROR"], [v |-> 400, n |-> "WARN"],
           [v |-> 500, n |-> "NOTICE"], [v |-> 600, n |-> "INFO"], [v |-> 700, n |-> "DEBUG"], [v |-> 750, n |-> "TRACE"], [v |-> 800, n |-> "NOTSET"]>>
PrioName(v) == IF \E i \in 1..10 : Prios[i].v = v THEN Prios[CHOOSE i \in 1..10 : Prios[i].v = v].n ELSE "UNKNOWN"
\* ---- categories: paths, in the order of their names
Paths == <<<<>>, <<"Ubitrack">>, <<"Ubitrack", "Events">>, <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"a", "bc">>, <<"ab">>, <<"b">>>>
NC == Len(Paths)
RECURSIVE JoinP(_)
JoinP(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o JoinP(Tail(p))
NameOf(c) == JoinP(Paths[c])
Front1(p) == SubSeq(p, 1, Len(p) - 1)
ParTab == [c \in 1..NC |-> IF c = 1 THEN 0 ELSE CHOOSE d \in 1..NC : Paths[d] = Front1(Paths[c])]
Par(c) == ParTab[c]
RECURSIVE Up(_)
Up(c) == IF c = 0 THEN {} ELSE {c} \cup Up(Par(c))
Fresh == [ex |-> FALSE, p |-> NOTSET, add |-> TRUE, apps |-> {}, own |-> {}]
NoCats == [c \in 1..NC |-> Fresh]
\* naming a category creates it and those above it; the root starts with INFO
Create(cs, c) == [d \in 1..NC |-> IF d \in Up(c) /\ ~cs[d].ex THEN [cs[d] EXCEPT !.ex = TRUE, !.p = IF d = 1 THEN 600 ELSE NOTSET] ELSE cs[d]]
\* the priority that counts: that of the nearest category that has one
RECURSIVE Eff(_, _)
Eff(cs, c) == IF cs[c].p # NOTSET \/ c = 1 THEN cs[c].p ELSE Eff(cs, Par(c))
Enabled(cs, c, p) == Eff(cs, c) >= p
\* how often an event of a category reaches an appender
RECURSIVE Times(_, _, _)
Times(cs, c, a) == (IF a \in cs[c].apps THEN 1 ELSE 0) + (IF cs[c].add /\ c # 1 THEN Times(cs, Par(c), a) ELSE 0)
SetPrio(cs, c, p) == [cs EXCEPT ![c].p = p]
Attach(cs, c, a, own) == IF a \in cs[c].apps THEN cs ELSE [cs EXCEPT ![c].apps = @ \cup {a}, ![c].own = IF own THEN @ \cup {a} ELSE @]
Detach(cs, c, a) == [cs EXCEPT ![c].apps = @ \ {a}, ![c].own = @ \ {a}]
DetachAll(cs, c) == [cs EXCEPT ![c].apps = {}, ![c].own = {}]
Attached(cs, a) == {c \in 1..NC : a \in cs[c].apps}
Owned(cs, a) == \E c \in 1..NC : a \in cs[c].own
\* ---- filters: a list of <<word, decision>>; the first that says something decides
RECURSIVE Decide(_, _)
Decide(f, m) == IF f = <<>> THEN "neutral" ELSE IF f[1][1] = m /\ f[1][2] # "neutral" THEN f[1][2] ELSE Decide(Tail(f), m)
Takes(a, p, m) == (a.thr = NOTSET \/ p <= a.thr) /\ Decide(a.fil, m) # "deny"
\* ---- layouts
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
Cut(s, n) == IF n > 0 /\ Len(s) > n THEN SubSeq(s, 1, n) ELSE s
Pad(s, n, left) == IF left THEN s \o Blanks(n - Len(s)) ELSE Blanks(n - Len(s)) \o s
\* the last k components of a name; all if k is 0
LastK(p, k) == JoinP(IF k = 0 \/ k >= Len(p) THEN p ELSE SubSeq(p, Len(p) - k + 1, Len(p)))
Digits3(n) == (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Files == <<<<"", "">>, <<"x.cpp", "x.cpp">>, <<"/a/b/x.cpp", "x.cpp">>, <<"dir\\y.h", "y.h">>, <<"a/b\\c/z", "z">>, <<"end/", "">>, <<"/src/mac.cpp", "mac.cpp">>>>
\* moments: second, year, month, day, day of the year, hour, minute, second, name of the month
Moments == <<<<0, "1970", "01", "01", "001", "00", "00", "00", "Jan">>, <<951827696, "2000", "02", "29", "060", "12", "34", "56", "Feb">>,
             <<1234567890, "2009", "02", "13", "044", "23", "31", "30", "Feb">>, <<1735689599, "2024", "12", "31", "366", "23", "59", "59", "Dec">>,
             <<2147483647, "2038", "01", "19", "019", "03", "14", "07", "Jan">>>>
Dates == <<"", "ISO8601", "ABSOLUTE", "DATE", "%H:%M", "%l", "%S.%l!", "%Y-%j">>
DateText(k, t, ms) == LET m == Moments[t] hms == m[6] \o ":" \o m[7] \o ":" \o m[8] \o "," \o Digits3(ms) IN
   CASE Dates[k] \in {"", "ISO8601"} -> m[2] \o "-" \o m[3] \o "-" \o m[4] \o " " \o hms
     [] Dates[k] = "ABSOLUTE" -> hms
     [] Dates[k] = "DATE" -> m[4] \o " " \o m[9] \o " " \o m[2] \o " " \o hms
     [] Dates[k] = "%H:%M" -> m[6] \o ":" \o m[7]
     [] Dates[k] = "%l" -> Digits3(ms)
     [] Dates[k] = "%S.%l!" -> m[8] \o "." \o Digits3(ms) \o "!"
     [] OTHER -> m[2] \o "-" \o m[5]
\* an event: category, message, context, priority, file, line, time (0: now), milliseconds
Event(c, m, x, p, f, l, t, ms) == [c |-> c, m |-> m, x |-> x, p |-> p, f |-> f, l |-> l, t |-> t, ms |-> ms]
Secs(e) == IF e.t = 0 THEN "NOW" ELSE ToString(Moments[e.t][1])
\* a piece of a pattern: literal text, or a conversion with least and greatest width
Lit(s) == [k |-> "lit", s |-> s, min |-> 0, max |-> 0, left |-> FALSE, a |-> 0]
Conv(k, min, max, left, a) == [k |-> k, s |-> "", min |-> min, max |-> max, left |-> left, a |-> a]
Raw(q, e) == CASE q.k = "c" -> LastK(Paths[e.c], q.a) [] q.k = "m" -> e.m [] q.k = "p" -> PrioName(e.p) [] q.k = "x" -> e.x
               [] q.k = "F" -> Files[e.f][1] [] q.k = "f" -> Files[e.f][2] [] q.k = "l" -> ToString(e.l) [] q.k = "R" -> Secs(e)
               [] q.k = "d" -> DateText(q.a, e.t, e.ms) [] q.k = "n" -> "\n" [] q.k = "%" -> "%" [] OTHER -> q.s
PieceText(q, e) == Pad(Cut(Raw(q, e), q.max), q.min, q.left)
RECURSIVE PatText(_, _)
PatText(ps, e) == IF ps = <<>> THEN "" ELSE PieceText(ps[1], e) \o PatText(Tail(ps), e)
PieceSource(q) == IF q.k = "lit" THEN q.s ELSE
   "%" \o (IF q.left THEN "-" ELSE "") \o (IF q.min > 0 THEN ToString(q.min) ELSE "") \o (IF q.max > 0 THEN "." \o ToString(q.max) ELSE "") \o q.k
       \o (IF q.k = "c" /\ q.a > 0 THEN "{" \o ToString(q.a) \o "}" ELSE IF q.k = "d" /\ q.a > 1 THEN "{" \o Dates[q.a] \o "}" ELSE "")
RECURSIVE PatSource(_)
PatSource(ps) == IF ps = <<>> THEN "" ELSE PieceSource(ps[1]) \o PatSource(Tail(ps))
\* a layout: [k, ps]
BasicL == <<Conv("R", 0, 0, FALSE, 0), Lit(" "), Conv("p", 0, 0, FALSE, 0), Lit(" "), Conv("c", 0, 0, FALSE, 0), Lit(" "), Conv("x", 0, 0, FALSE, 0), Lit(": "),
            Conv("m", 0, 0, FALSE, 0), Conv("n", 0, 0, FALSE, 0)>>
SimpleL == <<Conv("p", 8, 0, TRUE, 0), Lit(": "), Conv("m", 0, 0, FALSE, 0), Conv("n", 0, 0, FALSE, 0)>>
DefaultL == <<Conv("m", 0, 0, FALSE, 0), Conv("n", 0, 0, FALSE, 0)>>
Pieces(l) == CASE l.k = "basic" -> BasicL [] l.k = "simple" -> SimpleL [] l.k = "default" -> DefaultL [] OTHER -> l.ps
LayoutText(l, e) == PatText(Pieces(l), e)
\* ---- nested contexts: a stack of words; what is shown is the words in order
RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o Words(Tail(s))
\* ---- streams: what is collected until it is sent; width and adjustment of the next item
\* item <<kind, text or number>>; state [on (anything collected), s, w, left, sent (messages)]
StreamStart == [on |-> FALSE, s |-> "", w |-> 0, left |-> FALSE, sent |-> <<>>]
StreamStep(z, it) == CASE it[1] = "text" -> [z EXCEPT !.on = TRUE, !.s = @ \o Pad(it[2], z.w, z.left), !.w = 0]
                       [] it[1] = "width" -> [z EXCEPT !.on = TRUE, !.w = it[2]]
                       [] it[1] = "left" -> [z EXCEPT !.on = TRUE, !.left = TRUE]
                       [] OTHER -> IF z.on THEN [StreamStart EXCEPT !.sent = Append(z.sent, z.s)] ELSE z
RECURSIVE StreamAll(_, _)
StreamAll(z, l) == IF l = <<>> THEN StreamStep(z, <<"end", 0>>) ELSE StreamAll(StreamStep(z, l[1]), Tail(l))
\* ---- datagrams: a message in pieces that leave room for the preamble
RECURSIVE Datagrams(_, _)
Datagrams(n, pre) == IF n = 0 THEN <<>> ELSE IF pre + n > 900 THEN <<900 - pre>> \o Datagrams(n - (900 - pre), pre) ELSE <<n>>
Severity(p) == LET s == (p + 1) \div 100 IN IF s > 7 THEN 7 ELSE s
=============================================================================
