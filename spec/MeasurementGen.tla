--------------------------- MODULE MeasurementGen ---------------------------
EXTENDS Measurement, Gen
GenInit == Init /\ GenStart
GenNext == \/ More /\ \E o \in {Pick(Ops)} : Apply(o) /\ Record(o.op, o.args, Obs')
           \/ ~More /\ Finish /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_<<vars, hist, emitted>>
=============================================================================
