------------------------- MODULE ReachHistogramGen -------------------------
(* Every reachable count table, as a script *)
EXTENDS ReachHistogram, Json, SequencesExt
Emit == PrintT("GEN " \o ToJson([i \in 1..Cardinality(People) |-> counts[SetToSeq(People)[i]]]))
=============================================================================
