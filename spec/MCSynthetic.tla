---------------------------- MODULE MCSynthetic -----------------------------
EXTENDS Synthetic
MCRatios == {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<9, 10>>}
=============================================================================
