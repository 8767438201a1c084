------------------------- MODULE QuantileSearchGen --------------------------
EXTENDS QuantileSearch, Json
GInit == Init /\ PrintT("GEN " \o ToJson([curve |-> curve, max |-> maxr, num |-> num]))
GSpec == GInit /\ [][FALSE]_vars
==============================================================================
