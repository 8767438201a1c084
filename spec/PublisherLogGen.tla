-------------------------- MODULE PublisherLogGen --------------------------
(* Prints every caller list of the bounded model as a script. *)
EXTENDS PublisherLog, Json
GenInit == /\ Init
           /\ PrintT("GEN " \o ToJson(caller))
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
