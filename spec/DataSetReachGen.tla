-------------------------- MODULE DataSetReachGen --------------------------
EXTENDS DataSetReach, Json
GenInit == DInit /\ PrintT("GEN " \o ToJson(ds))
GenSpec == GenInit /\ [][FALSE]_dvars
=============================================================================
