----------------------------- MODULE MCLogFiles -----------------------------
(* One appender that rolls over, several sizes and numbers of backups, while *)
(* names are removed and the directory is taken away: what is in the files   *)
(* is the end of what was written.                                           *)
EXTENDS LogFiles
CONSTANTS MaxLen, MaxIno
VARIABLES fs, a, sent, quiet, gone
vars == <<fs, a, sent, quiet, gone>>
Words == {"x", "yy"}
Init == /\ quiet = TRUE /\ gone = FALSE /\ sent = ""
        /\ \E m \in {1, 2, 3}, k \in {1, 2}, p \in BOOLEAN : \E b \in {[NoApp EXCEPT !.live = TRUE, !.kind = "roll", !.max = m, !.keep = k, !.app = p]} :
           \E o \in {Create(NoFs, b)} : fs = o.fs /\ a = [b EXCEPT !.fd = o.fd]
Log(w) == \E o \in {Put(fs, a, w)} : fs' = o.fs /\ a' = [a EXCEPT !.fd = o.fd] /\ sent' = (IF a.fd = 0 THEN sent ELSE sent \o w) /\ UNCHANGED <<quiet, gone>>
Again == \E o \in {Reopen(fs, a)} : fs' = o.fs /\ a' = [a EXCEPT !.fd = o.fd] /\ quiet' = (quiet /\ (a.app \/ ~fs.there[1])) /\ UNCHANGED <<sent, gone>>
Lose(i) == fs' = Drop(fs, 1, Slot(1, i)) /\ quiet' = FALSE /\ UNCHANGED <<a, sent, gone>>
Away == gone' = TRUE /\ fs' = [fs EXCEPT !.there[1] = ~@] /\ UNCHANGED <<a, sent, quiet>>
Next == Len(sent) < MaxLen /\ Len(fs.ino) < MaxIno /\ ((\E w \in Words : Log(w)) \/ Again \/ (\E i \in 0..1 : Lose(i)) \/ Away)
Spec == Init /\ [][Next]_vars
Content(i) == LET n == fs.dir[1][Slot(1, i)] IN IF n = 0 THEN "" ELSE fs.ino[n].s
RECURSIVE All(_)
All(i) == IF i < 0 THEN "" ELSE Content(i) \o All(i - 1)
IsEnd(s, t) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
\* nothing else than the end of what was sent, while nothing was removed and all of it while there is room
EndOfSent == quiet => IsEnd(All(a.keep), sent)
Enough == quiet /\ Content(a.keep) = "" => All(a.keep) = sent
\* no more backups than asked for; the open file is smaller than the limit, if the directory stayed; no backup is
NoMore == \A s \in Slots : IdxOf(s) > a.keep => fs.dir[1][s] = 0
Small == ~gone /\ a.fd # 0 => Len(fs.ino[a.fd].s) < a.max
Backups == \A i \in 1..a.keep : Content(i) # "" => Len(Content(i)) >= a.max
\* two names never lead to the same file
OneName == \A s, t \in Slots : fs.dir[1][s] # 0 /\ fs.dir[1][s] = fs.dir[1][t] => s = t
=============================================================================
