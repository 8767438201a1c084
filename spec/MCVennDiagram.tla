--------------------------- MODULE MCVennDiagram ----------------------------
EXTENDS VennDiagram
MCNoise == {-1, 0, 2}
MCCards == {-2, 0, 3}
=============================================================================
