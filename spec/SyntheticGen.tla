---------------------------- MODULE SyntheticGen ----------------------------
EXTENDS MCSynthetic, Json
Emit == PrintT("GEN " \o ToJson([config |-> config]))
GInit == Init /\ prior = 0 /\ Emit
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
