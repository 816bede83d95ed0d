-------------------------------- MODULE Gen --------------------------------
(* Behaviour generation: a history variable that is written out as JSON    *)
(* once, by the final step of the behaviour. Random choices are made by    *)
(* TLC (seeded by -seed), one successor per step.                          *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
VARIABLES hist, emitted
Depth == atoi(IOEnv.DEPTH)
Finish == /\ ~emitted
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
          /\ emitted' = TRUE
          /\ UNCHANGED hist
Record(o, a, e) == hist' = Append(hist, [op |-> o, args |-> a, exp |-> e]) /\ UNCHANGED emitted
GenStart == hist = <<>> /\ emitted = FALSE
More == Len(hist) < Depth
\* one operation out of a set of operation records: first its name, then its arguments
Pick(S) == LET n == RandomElement({o.op : o \in S}) IN RandomElement({o \in S : o.op = n})
=============================================================================
