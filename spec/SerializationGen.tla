-------------------------- MODULE SerializationGen --------------------------
EXTENDS Serialization, Gen
Alive == {s \in Streams : st[s].fmt # ""}
Writable == {s \in Alive : ~st[s].done /\ Len(st[s].msgs) < MaxMsgs}
Readable == {s \in Alive : CanRead(st[s])}
Exp(x) == <<"ok", x.v, x.tm>>
FeedArgs(s) == {<<k, p>> \in (st[s].feed..Len(st[s].msgs)) \X (0..1) :
                  (k = st[s].feed => p = 1 /\ st[s].part = 0) /\ (p = 1 => k < Len(st[s].msgs))}
DoOpen == \E s \in {RandomElement(Streams)} : \E f \in {RandomElement(Formats)} : Open(s, f) /\ Record("open", <<s, f>>, <<>>)
DoWrite == \E s \in {RandomElement(Writable)} : \E m \in {RandomElement(0..1)} : \E x \in {RandomElement({y \in WritableMsgs : y.m = m})} :
             Write(s, x) /\ Record("write", <<s, x.t, x.m, x.tm, x.v>>, IF Refused(st[s].fmt, x.v) THEN <<[exc |-> ""]>> ELSE <<>>)
DoFinish == \E s \in {RandomElement({z \in Alive : st[z].fmt \in Archives /\ ~st[z].done})} : Finish_(s) /\ Record("finish", <<s>>, <<>>)
DoFeed == \E s \in {RandomElement({z \in Alive : st[z].fmt \in Framed /\ FeedArgs(z) # {}})} : \E a \in {RandomElement(FeedArgs(s))} :
             Feed(s, a[1], a[2]) /\ Record("feed", <<s, a[1], a[2]>>, <<>>)
DoRead == \E s \in {RandomElement({z \in Readable : ~Underflow(st[z])})} : LET x == st[s].msgs[st[s].pos + 1] IN
             Read(s) /\ Record("read", <<s, x.t, x.m>>, Exp(Seen(x)))
DoReadNone == \E s \in {RandomElement({z \in Readable : Underflow(st[z])})} : \E t \in {RandomElement(Types)} :
             ReadNone(s) /\ Record("readnone", <<s, t>>, <<"none">>)
DoReadWrong == \E s \in {RandomElement({z \in Readable : st[z].fmt \in Framed /\ ~Underflow(st[z]) /\ st[z].msgs[st[z].pos + 1].m = 0 /\ st[z].msgs[st[z].pos + 1].t \in FlatTypes})} :
             \E t \in {RandomElement({u \in FlatTypes : Width(u) # Width(st[s].msgs[st[s].pos + 1].t)})} :
             ReadWrong(s, t) /\ Record("readwrong", <<s, t>>, <<[exc |-> ""]>>)
Enabled == (IF Alive = {} THEN {"open"} ELSE {"open"}) \cup
           (IF Writable # {} THEN {"write", "write2", "write3"} ELSE {}) \cup
           (IF {z \in Alive : st[z].fmt \in Archives /\ ~st[z].done /\ st[z].msgs # <<>>} # {} THEN {"finish"} ELSE {}) \cup
           (IF {z \in Alive : st[z].fmt \in Framed /\ FeedArgs(z) # {}} # {} THEN {"feed", "feed2"} ELSE {}) \cup
           (IF {z \in Readable : ~Underflow(st[z])} # {} THEN {"read", "read2", "read3", "read4"} ELSE {}) \cup
           (IF {z \in Readable : Underflow(st[z])} # {} THEN {"readnone"} ELSE {}) \cup
           (IF {z \in Readable : st[z].fmt \in Framed /\ ~Underflow(st[z]) /\ st[z].msgs[st[z].pos + 1].m = 0 /\ st[z].msgs[st[z].pos + 1].t \in FlatTypes} # {} THEN {"readwrong"} ELSE {})
Do(c) == CASE c = "open" -> DoOpen
           [] c \in {"write", "write2", "write3"} -> DoWrite
           [] c = "finish" -> DoFinish
           [] c \in {"feed", "feed2"} -> DoFeed
           [] c \in {"read", "read2", "read3", "read4"} -> DoRead
           [] c = "readnone" -> DoReadNone
           [] c = "readwrong" -> DoReadWrong
GenNext == \/ More /\ \E c \in {RandomElement(Enabled)} : Do(c)
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == Init /\ GenStart /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
