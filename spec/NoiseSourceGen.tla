--------------------------- MODULE NoiseSourceGen ---------------------------
(* interleavings of queries to the systems and of foreign draws *)
EXTENDS MCNoiseSource, Json
VARIABLE done
GInit == Init /\ done = <<>>
GNext == /\ Len(done) < MaxQueries
         /\ \/ \E s \in Systems, q \in Kinds : Query(s, q) /\ done' = Append(done, [sys |-> s, q |-> q])
            \/ Foreign /\ done' = Append(done, [sys |-> "-", q |-> "foreign"])
         /\ (Len(done') = MaxQueries => PrintT("GEN " \o ToJson(done')))
GSpec == GInit /\ [][GNext]_<<vars, done>>
=============================================================================
