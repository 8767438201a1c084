----------------------------- MODULE OverlapGen -----------------------------
EXTENDS Overlap, Json
Emit == PrintT("GEN " \o ToJson([ds |-> ds, ids |-> [i \in 1..NPubs |-> SetToSeq(ids[i])]]))
GSpec == OInit /\ Emit /\ [][FALSE]_ovars
=============================================================================
