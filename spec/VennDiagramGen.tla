--------------------------- MODULE VennDiagramGen ---------------------------
EXTENDS MCVennDiagram, Json
Emit == PrintT("GEN " \o ToJson([ds |-> ds, sp |-> purchase]))
GSpec == (VInit /\ Emit) /\ [][FALSE]_vvars
=============================================================================
