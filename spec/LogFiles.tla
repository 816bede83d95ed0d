------------------------------ MODULE LogFiles ------------------------------
(* Log files: directories with names that lead to files, appenders that hold *)
(* a file open while names are moved or removed, files that are rolled over. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ND == 2
Bases == <<"a.log", "b">>
NB == Len(Bases)
MaxIdx == 11
\* the names of a directory: base and number of the backup (0: none)
Slots == 1..(NB * (MaxIdx + 1))
Slot(b, i) == (b - 1) * (MaxIdx + 1) + i + 1
BaseOf(s) == ((s - 1) \div (MaxIdx + 1)) + 1
IdxOf(s) == (s - 1) % (MaxIdx + 1)
SlotName(s) == Bases[BaseOf(s)] \o (IF IdxOf(s) = 0 THEN "" ELSE "." \o ToString(IdxOf(s)))
\* fs: [ino: sequence of [s (content), m (mode)], dir: names of every directory (0: none), there: directories in their place]
NoFs == [ino |-> <<>>, dir |-> TLCEval([d \in 1..ND |-> TLCEval([s \in Slots |-> 0])]), there |-> [d \in 1..ND |-> TRUE]]
\* appender: [live, kind (file, roll, fd), d, b, fd (0: none), app (append), m (mode), max, keep]
NoApp == [live |-> FALSE, kind |-> "file", d |-> 1, b |-> 1, fd |-> 0, app |-> TRUE, m |-> 420, max |-> 0, keep |-> 0]
\* open a name for writing: [fs, fd]
Open(fs, d, s, app, m) ==
   IF ~fs.there[d] THEN [fs |-> fs, fd |-> 0]
   ELSE LET i == fs.dir[d][s] n == Len(fs.ino) + 1 IN
        IF i = 0 THEN [fs |-> [fs EXCEPT !.ino = Append(@, [s |-> "", m |-> m]), !.dir[d][s] = n], fd |-> n]
        ELSE [fs |-> IF app THEN fs ELSE [fs EXCEPT !.ino[i].s = ""], fd |-> i]
\* a name of the directory moves onto another one
Move(fs, d, s, t) == IF ~fs.there[d] \/ fs.dir[d][s] = 0 \/ s = t THEN fs ELSE [fs EXCEPT !.dir[d][t] = fs.dir[d][s], !.dir[d][s] = 0]
Drop(fs, d, s) == IF fs.there[d] THEN [fs EXCEPT !.dir[d][s] = 0] ELSE fs
Write(fs, i, t) == IF i = 0 THEN fs ELSE [fs EXCEPT !.ino[i].s = @ \o t]
\* the names of a base move up by one, the last one is gone
Shift(fs, d, b, keep) ==
   IF keep = 0 \/ ~fs.there[d] THEN fs
   ELSE [fs EXCEPT !.dir[d] = TLCEval([s \in Slots |-> IF BaseOf(s) # b \/ IdxOf(s) > keep THEN fs.dir[d][s] ELSE IF IdxOf(s) = 0 THEN 0 ELSE fs.dir[d][Slot(b, IdxOf(s) - 1)]])]
Roll(fs, a) == Open(Shift(fs, a.d, a.b, a.keep), a.d, Slot(a.b, 0), a.app, a.m)
\* an event with text t: [fs, fd]
Put(fs, a, t) == LET w == Write(fs, a.fd, t) IN
   IF a.kind = "roll" /\ a.fd # 0 /\ Len(w.ino[a.fd].s) >= a.max THEN Roll(w, a) ELSE [fs |-> w, fd |-> a.fd]
\* reopen: the old file is kept if there is no new one: [fs, fd, ok]
Reopen(fs, a) == IF a.kind = "fd" THEN [fs |-> fs, fd |-> a.fd, ok |-> TRUE]
                 ELSE LET o == Open(fs, a.d, Slot(a.b, 0), a.app, a.m) IN [fs |-> o.fs, fd |-> IF o.fd = 0 THEN a.fd ELSE o.fd, ok |-> o.fd # 0]
Create(fs, a) == Open(fs, a.d, Slot(a.b, 0), IF a.kind = "fd" THEN TRUE ELSE a.app, a.m)
\* all of them, in order: [fs, as, ok]
RECURSIVE ReopenAll(_, _, _)
ReopenAll(z, as, k) == IF k > Len(as) THEN z
   ELSE IF ~as[k].live THEN ReopenAll(z, as, k + 1)
   ELSE LET r == Reopen(z.fs, as[k]) IN ReopenAll([fs |-> r.fs, as |-> [z.as EXCEPT ![k].fd = r.fd], ok |-> z.ok /\ r.ok], as, k + 1)
\* what is to be seen: for every directory in its place, the names with content and mode
RECURSIVE Seen(_, _, _)
Seen(fs, d, s) == IF s > Cardinality(Slots) THEN <<>> ELSE (IF fs.dir[d][s] = 0 THEN <<>> ELSE <<SlotName(s), fs.ino[fs.dir[d][s]].s, fs.ino[fs.dir[d][s]].m>>) \o Seen(fs, d, s + 1)
=============================================================================
