----------------------------- MODULE LogFileGen -----------------------------
(* Behaviours of appenders that write files, with the files looked at after *)
(* every step.                                                              *)
EXTENDS LogFiles, Gen
VARIABLES fs, as
R(lo, hi) == RandomElement(lo..hi)
RI(S, h) == RandomElement(S)
NA == 4
Modes == {420, 384}
B(x) == IF x THEN 1 ELSE 0
NoAs == [k \in 1..NA |-> NoApp]
Look(f) == <<Len(Seen(f, 1, 1)), Len(Seen(f, 2, 1))>> \o (IF f.there[1] THEN Seen(f, 1, 1) ELSE <<"away">>) \o (IF f.there[2] THEN Seen(f, 2, 1) ELSE <<"away">>)
Step(f, n, o, x, e) == fs' = f /\ as' = n /\ Record(o, x, e \o Look(f))
LiveOne(h) == LET S == {k \in 1..NA : as[k].live} IN IF S = {} THEN 1 ELSE RI(S, h)
DeadOne(h) == LET S == {k \in 1..NA : ~as[k].live} IN IF S = {} THEN 1 ELSE RI(S, h)
Nothing == Step(fs, as, "nothing", <<>>, <<>>)
DoNew == \E k \in {DeadOne(hist)}, d \in {R(1, ND)}, b \in {R(1, NB)}, p \in {RI(BOOLEAN, hist)}, m \in {RI(Modes, hist)}, n \in {RI({"file", "roll", "roll", "fd"}, hist)},
            x \in {RI({1, 4, 10, 30}, hist)}, c \in {RI({1, 2, 3, 10, 11}, hist)} :
         IF as[k].live \/ (n = "fd" /\ ~fs.there[d]) THEN Nothing
         ELSE \E a \in {[NoApp EXCEPT !.live = TRUE, !.kind = n, !.d = d, !.b = b, !.app = (p \/ n = "fd"), !.m = m, !.max = IF n = "roll" THEN x ELSE 0, !.keep = IF n = "roll" THEN c ELSE 0]} :
              \E o \in {Create(fs, a)} : Step(o.fs, [as EXCEPT ![k] = [a EXCEPT !.fd = o.fd]], "new", <<k, n, d, Bases[b], B(a.app), m, a.max, a.keep>>, <<>>)
Texts == {"x", "abc", "hello", "eleven char", ""}
\* a few events one after the other
RECURSIVE Puts(_, _, _)
Puts(f, a, l) == IF l = <<>> THEN [fs |-> f, fd |-> a.fd] ELSE LET o == Put(f, a, l[1] \o "\n") IN Puts(o.fs, [a EXCEPT !.fd = o.fd], Tail(l))
DoLog == \E k \in {LiveOne(hist)}, n \in {R(1, 5)} : \E l \in {TLCEval([i \in 1..n |-> RI(Texts, <<hist, i>>)])} :
         IF ~as[k].live THEN Nothing ELSE \E o \in {Puts(fs, as[k], l)} : Step(o.fs, [as EXCEPT ![k].fd = o.fd], "log", <<k, n>> \o l, <<>>)
DoReopen == \E k \in {LiveOne(hist)} : IF ~as[k].live THEN Nothing ELSE \E r \in {Reopen(fs, as[k])} : Step(r.fs, [as EXCEPT ![k].fd = r.fd], "reopen", <<k>>, <<B(r.ok)>>)
DoReopenAll == \E r \in {ReopenAll([fs |-> fs, as |-> as, ok |-> TRUE], as, 1)} : Step(r.fs, r.as, "reopenall", <<>>, <<B(r.ok)>>)
DoClose == \E k \in {LiveOne(hist)} : IF ~as[k].live THEN Nothing ELSE Step(fs, [as EXCEPT ![k].fd = 0], "close", <<k>>, <<>>)
DoCloseAll == Step(fs, TLCEval([k \in 1..NA |-> [as[k] EXCEPT !.fd = 0]]), "closeall", <<>>, <<>>)
DoDelete == \E k \in {LiveOne(hist)} : IF ~as[k].live THEN Nothing ELSE Step(fs, [as EXCEPT ![k] = NoApp], "delete", <<k>>, <<>>)
DoSet == \E k \in {LiveOne(hist)}, p \in {RI(BOOLEAN, hist)}, m \in {RI(Modes, hist)}, x \in {RI({1, 5, 20, 1000}, hist)}, c \in {RI({1, 2, 4, 10}, hist)} :
         IF ~as[k].live THEN Nothing
         ELSE \E a \in {[as[k] EXCEPT !.app = p, !.m = m, !.max = IF as[k].kind = "roll" THEN x ELSE 0, !.keep = IF as[k].kind = "roll" THEN c ELSE 0]} :
              Step(fs, [as EXCEPT ![k] = a], "set", <<k, B(p), m, a.max, a.keep>>, <<B(p), m, a.max, a.keep>>)
DoRollOver == \E k \in {LiveOne(hist)} : IF ~as[k].live \/ as[k].kind # "roll" \/ as[k].fd = 0 THEN Nothing ELSE \E o \in {Roll(fs, as[k])} : Step(o.fs, [as EXCEPT ![k].fd = o.fd], "roll", <<k>>, <<>>)
DoRemove == \E d \in {R(1, ND)}, b \in {R(1, NB)}, i \in {RI({0, 0, 1, 2, 9}, hist)} : IF ~fs.there[d] THEN Nothing ELSE Step(Drop(fs, d, Slot(b, i)), as, "remove", <<d, SlotName(Slot(b, i))>>, <<>>)
DoRename == \E d \in {R(1, ND)}, b \in {R(1, NB)}, i \in {RI({0, 0, 1}, hist)}, j \in {RI({1, 2, 3, 9, 10}, hist)} :
            IF ~fs.there[d] THEN Nothing ELSE Step(Move(fs, d, Slot(b, i), Slot(b, j)), as, "rename", <<d, SlotName(Slot(b, i)), SlotName(Slot(b, j))>>, <<>>)
DoAway == \E d \in {R(1, ND)} : Step([fs EXCEPT !.there[d] = ~@], as, "away", <<d, B(~fs.there[d])>>, <<>>)
GenInit == GenStart /\ fs = NoFs /\ as = NoAs
Choices == <<"new", "new", "new", "log", "log", "log", "log", "log", "log", "log", "log", "reopen", "reopen", "reopenall", "close", "closeall", "delete", "set", "roll", "remove", "rename", "away">>
Do(k) == CASE Choices[k] = "new" -> DoNew [] Choices[k] = "log" -> DoLog [] Choices[k] = "reopen" -> DoReopen [] Choices[k] = "reopenall" -> DoReopenAll
           [] Choices[k] = "close" -> DoClose [] Choices[k] = "closeall" -> (IF R(1, 3) = 1 THEN DoCloseAll ELSE DoLog) [] Choices[k] = "delete" -> DoDelete [] Choices[k] = "set" -> DoSet
           [] Choices[k] = "roll" -> DoRollOver [] Choices[k] = "remove" -> DoRemove [] Choices[k] = "rename" -> DoRename [] OTHER -> DoAway
GenNext == IF More THEN \E k \in {R(1, Len(Choices))} : Do(k) ELSE Finish /\ UNCHANGED <<fs, as>>
GenSpec == GenInit /\ [][GenNext]_<<hist, emitted, fs, as>>
=============================================================================
