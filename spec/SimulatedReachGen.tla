------------------------- MODULE SimulatedReachGen --------------------------
EXTENDS MCSimulatedReach, Json
Emit == PrintT("GEN " \o ToJson([ds |-> ds, req |-> purchase, camp |-> camp, f |-> f]))
GSpec == (SInit /\ Emit) /\ [][FALSE]_svars
=============================================================================
