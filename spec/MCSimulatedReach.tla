-------------------------- MODULE MCSimulatedReach --------------------------
EXTENDS SimulatedReach
MCEstimates == {-12, 0, 9, 18, 40}
=============================================================================
