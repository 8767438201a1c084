--------------------------- MODULE ReachCurveGen ----------------------------
(* Every audience history and training point of the bounds, one line each.     *)
EXTENDS ReachCurve, Json
GInit == Init /\ PrintT("GEN " \o ToJson([shown |-> shown, train |-> train]))
GNext == Next /\ PrintT("GEN " \o ToJson([shown |-> shown', train |-> train']))
GSpec == GInit /\ [][GNext]_vars
==============================================================================
