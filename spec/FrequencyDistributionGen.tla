---------------------- MODULE FrequencyDistributionGen -----------------------
EXTENDS FrequencyDistribution, Json
GInit ==
  /\ Init
  /\ dist[1] = 0
  /\ PrintT("GEN " \o ToJson([a |-> Tail0(dist), mass |-> Mass, num |-> num, den |-> Den]))
GSpec == GInit /\ [][FALSE]_vars
==============================================================================
