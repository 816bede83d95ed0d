------------------------------ MODULE MCDevice ------------------------------
(* Whatever the order of opening, closing, failing and losing a device, no    *)
(* descriptor stays behind, bytes are read once and in order, and a line      *)
(* used by one port at a time has its settings back when the port is closed.  *)
EXTENDS Device
CONSTANTS MaxIn
VARIABLES s, sent, read, shared
vars == <<s, sent, read, shared>>
Ports == 1..2
Devs == 1..2
Init == s = [port |-> [p \in Ports |-> NoPort], dev |-> [d \in Devs |-> NewDev(d)]] /\ sent = [d \in Devs |-> 0] /\ read = [d \in Devs |-> <<>>] /\ shared = [d \in Devs |-> FALSE]
\* opening or closing while another port has the device open (settings are then restored out of order)
Users(t, d) == {p \in Ports : t.port[p].open /\ t.port[p].d = d}
Note(t) == shared' = [d \in Devs |-> shared[d] \/ Cardinality(Users(t, d)) > 1]
NewP == \E p \in Ports, d \in {1, 3}, b \in {9600, 1} : s' = Make(s, p, d, b, 7, 2, 1) /\ UNCHANGED <<sent, read>> /\ Note(s')
NewP2 == \E p \in Ports : s' = Make(s, p, 2, 19200, 8, 0, 2) /\ UNCHANGED <<sent, read>> /\ Note(s')
DropP == \E p \in Ports : s.port[p].ex /\ s' = Unmake(s, p) /\ UNCHANGED <<sent, read>> /\ Note(s')
OpenP == \E p \in Ports, v \in {0, 1} : s.port[p].ex /\ s' = Open(s, p, v, 0) /\ UNCHANGED <<sent, read>> /\ Note(s')
CloseP == \E p \in Ports : s.port[p].ex /\ s' = Close(s, p) /\ UNCHANGED <<sent, read>> /\ Note(s')
In == \E d \in {1} : s.dev[d].up /\ sent[d] < MaxIn /\ s' = Receive(s, d, <<sent[d] + 1>>) /\ sent' = [sent EXCEPT ![d] = @ + 1] /\ UNCHANGED <<read, shared>>
ReadP == \E p \in Ports, n \in 1..2 : Live(s, p) /\ s' = Read(s, p, n) /\ read' = [read EXCEPT ![s.port[p].d] = @ \o Got(s, p, n)] /\ UNCHANGED <<sent, shared>>
FlushP == \E p \in Ports : Live(s, p) /\ s' = Flush(s, p) /\ UNCHANGED <<sent, read, shared>>
Gone == \E d \in Devs : s.dev[d].up /\ s' = GoneDev(s, d) /\ UNCHANGED <<sent, read, shared>>
Next == NewP \/ NewP2 \/ DropP \/ OpenP \/ CloseP \/ In \/ ReadP \/ FlushP \/ Gone
Spec == Init /\ [][Next]_vars
Held == Fds(s) = Cardinality({p \in Ports : s.port[p].ex /\ s.port[p].open}) /\ \A p \in Ports : s.port[p].open => s.port[p].ex
Restored == \A d \in Devs : (s.dev[d].up /\ ~shared[d] /\ Users(s, d) = {}) => s.dev[d].set = Orig(d)
InUse == \A d \in Devs, p \in Ports : (s.dev[d].up /\ ~shared[d] /\ p \in Users(s, d)) => s.dev[d].set[1] = s.port[p].baud
\* read bytes are increasing, none that is still waiting was read, the waiting ones are the last received
Order == \A d \in Devs : /\ \A i, j \in 1..Len(read[d]) : i < j => read[d][i] < read[d][j]
                         /\ \A i \in 1..Len(s.dev[d].in) : s.dev[d].in[i] = sent[d] - Len(s.dev[d].in) + i
                         /\ \A i \in 1..Len(read[d]), j \in 1..Len(s.dev[d].in) : read[d][i] < s.dev[d].in[j]
=============================================================================
