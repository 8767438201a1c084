-------------------------- MODULE ReachSurfaceGen ---------------------------
(* Every audience size vector and admissible parameter matrix of the bounds.   *)
EXTENDS ReachSurface, Json
GInit == Init /\ PrintT("GEN " \o ToJson([kind |-> kind, m |-> m, a |-> a]))
GSpec == GInit /\ [][FALSE]_vars
==============================================================================
