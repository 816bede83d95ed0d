----------------------------- MODULE RansacTrace -----------------------------
(* Traces recorded from the code, one per line: [c |-> .., tr |-> ..]         *)
EXTENDS Ransac, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
TInit == k = 0 /\ ok = TRUE
TNext == k < Len(Traces) /\ k' = k + 1 /\ ok' = Accepts(Traces[k + 1].c, Traces[k + 1].tr)
TSpec == TInit /\ [][TNext]_<<k, ok>>
AllAccepted == ok
=============================================================================
