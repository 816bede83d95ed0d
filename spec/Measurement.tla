---------------------------- MODULE Measurement ----------------------------
(* Time-stamped measurements are reference-counted handles.                 *)
(* A handle is a pair (payload reference, timestamp); payload cells live in *)
(* a heap and are shared between handles by copying, never by cloning.      *)
(* Timestamp 0 is the invalid timestamp.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NH,     \* number of handle variables
          NV,     \* number of distinct payload values
          NT      \* number of distinct timestamps, 0..NT-1 (0 = invalid)

VARIABLES h,      \* [1..NH -> [ptr, time]]
          heap    \* [1..NH -> 0..NV], 0 = cell not allocated
vars == <<h, heap>>

Handles == 1..NH
Cells   == 1..NH
Values  == 1..NV
Times   == 0..(NT - 1)
Null    == 0

TypeOK == /\ h \in [Handles -> [ptr : 0..NH, time : Times]]
          /\ heap \in [Cells -> 0..NV]

Init == /\ h = [i \in Handles |-> [ptr |-> Null, time |-> 0]]
        /\ heap = [c \in Cells |-> 0]

Refs(hh, c) == {i \in Handles : hh[i].ptr = c}
\* a cell lives exactly as long as some handle refers to it
Collect(hh, hp) == [c \in Cells |-> IF Refs(hh, c) = {} THEN 0 ELSE hp[c]]
\* installs handle value x in variable i, with heap hp
Put(i, x, hp) == LET hh == [h EXCEPT ![i] = x]
                 IN  /\ h' = hh
                     /\ heap' = Collect(hh, hp)
\* the allocation of a fresh cell when variable i is about to be overwritten
Fresh(i) == CHOOSE c \in Cells : Refs([h EXCEPT ![i].ptr = Null], c) = {}

Default(i)        == Put(i, [ptr |-> Null, time |-> 0], heap)
FromTime(i, t)    == Put(i, [ptr |-> Null, time |-> t], heap)
FromPtr(i, j)     == Put(i, [ptr |-> h[j].ptr, time |-> 0], heap)
FromVal(i, v)     == LET c == Fresh(i) IN Put(i, [ptr |-> c, time |-> 0], [heap EXCEPT ![c] = v])
FromTimePtr(i, t, j) == Put(i, [ptr |-> h[j].ptr, time |-> t], heap)
FromTimeVal(i, t, v) == LET c == Fresh(i) IN Put(i, [ptr |-> c, time |-> t], [heap EXCEPT ![c] = v])
Copy(i, j)        == Put(i, h[j], heap)
Clone(i, j)       == IF h[j].ptr = Null
                     THEN Put(i, [ptr |-> Null, time |-> h[j].time], heap)
                     ELSE LET c == Fresh(i)
                          IN Put(i, [ptr |-> c, time |-> h[j].time], [heap EXCEPT ![c] = heap[h[j].ptr]])
ConstCast(i, j)   == Put(i, h[j], heap)
Write(i, v)       == /\ h[i].ptr # Null
                     /\ heap' = [heap EXCEPT ![h[i].ptr] = v]
                     /\ UNCHANGED h
SetTime(i, t)     == h' = [h EXCEPT ![i].time = t] /\ UNCHANGED heap
Invalidate(i)     == h' = [h EXCEPT ![i].time = 0] /\ UNCHANGED heap
Release(i)        == Put(i, [ptr |-> Null, time |-> h[i].time], heap)
Swap(i, j)        == h' = [h EXCEPT ![i] = h[j], ![j] = h[i]] /\ UNCHANGED heap

Op(n, a) == [op |-> n, args |-> a]
Ops == {Op("default", <<i>>) : i \in Handles}
  \cup {Op("fromTime", <<i, t>>) : i \in Handles, t \in Times}
  \cup {Op("fromPtr", <<i, j>>) : i \in Handles, j \in Handles}
  \cup {Op("fromVal", <<i, v>>) : i \in Handles, v \in Values}
  \cup {Op("fromTimePtr", <<i, t, j>>) : i \in Handles, t \in Times, j \in Handles}
  \cup {Op("fromTimeVal", <<i, t, v>>) : i \in Handles, t \in Times, v \in Values}
  \cup {Op("copy", <<i, j>>) : i \in Handles, j \in Handles}
  \cup {Op("clone", <<i, j>>) : i \in Handles, j \in Handles}
  \cup {Op("constCast", <<i, j>>) : i \in Handles, j \in Handles}
  \cup {Op("write", <<i, v>>) : i \in {k \in Handles : h[k].ptr # Null}, v \in Values}
  \cup {Op("setTime", <<i, t>>) : i \in Handles, t \in Times}
  \cup {Op("invalidate", <<i>>) : i \in Handles}
  \cup {Op("release", <<i>>) : i \in Handles}
  \cup {Op("swap", <<i, j>>) : i \in Handles, j \in Handles}

Apply(o) == LET a == o.args IN
  CASE o.op = "default"     -> Default(a[1])
    [] o.op = "fromTime"    -> FromTime(a[1], a[2])
    [] o.op = "fromPtr"     -> FromPtr(a[1], a[2])
    [] o.op = "fromVal"     -> FromVal(a[1], a[2])
    [] o.op = "fromTimePtr" -> FromTimePtr(a[1], a[2], a[3])
    [] o.op = "fromTimeVal" -> FromTimeVal(a[1], a[2], a[3])
    [] o.op = "copy"        -> Copy(a[1], a[2])
    [] o.op = "clone"       -> Clone(a[1], a[2])
    [] o.op = "constCast"   -> ConstCast(a[1], a[2])
    [] o.op = "write"       -> Write(a[1], a[2])
    [] o.op = "setTime"     -> SetTime(a[1], a[2])
    [] o.op = "invalidate"  -> Invalidate(a[1])
    [] o.op = "release"     -> Release(a[1])
    [] o.op = "swap"        -> Swap(a[1], a[2])

Next == \E o \in Ops : Apply(o)
Spec == Init /\ [][Next]_vars

(* what a user can see of handle i: payload present?, timestamp, invalid?,  *)
(* payload value, number of handles sharing the payload, the smallest       *)
(* handle sharing it                                                        *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
ObsOf(hh, hp, i) ==
  LET p == hh[i].ptr IN
  << IF p = Null THEN 0 ELSE 1, hh[i].time, IF hh[i].time = 0 THEN 1 ELSE 0,
     IF p = Null THEN 0 ELSE hp[p], Cardinality(Refs(hh, p)) * (IF p = Null THEN 0 ELSE 1),
     IF p = Null THEN 0 ELSE Min(Refs(hh, p)) >>
RECURSIVE ObsAll(_, _, _)
ObsAll(hh, hp, i) == IF i > NH THEN <<>> ELSE ObsOf(hh, hp, i) \o ObsAll(hh, hp, i + 1)
Obs == ObsAll(h, heap, 1)

----------------------------------------------------------------------------
(* Properties *)
\* a handle refers to a live cell; a live cell is referred to (no leak, no dangling)
NoDangling == \A i \in Handles : h[i].ptr # Null => heap[h[i].ptr] # 0
NoLeak     == \A c \in Cells : heap[c] # 0 => Refs(h, c) # {}
\* invalid exactly when the timestamp is the invalid one
InvalidIff == \A i \in Handles : (ObsOf(h, heap, i)[3] = 1) = (h[i].time = 0)
\* handles that share a payload always see the same value
SharedSee  == \A i, j \in Handles : (h[i].ptr = h[j].ptr /\ h[i].ptr # Null) => ObsOf(h, heap, i)[4] = ObsOf(h, heap, j)[4]
\* changing the payload through one handle never changes the value seen by a handle that does not share it
CloneIndependent == [][\A i \in Handles : (h'[i] = h[i] /\ h[i].ptr # Null /\ heap'[h[i].ptr] # heap[h[i].ptr])
                         => \E j \in Handles : h[j].ptr = h[i].ptr]_vars
\* a timestamp belongs to one handle: no action changes the timestamp of two handles, except swap
TimeIsPerHandle == [][Cardinality({i \in Handles : h'[i].time # h[i].time}) <= 2]_vars
=============================================================================
