--------------------------- MODULE MCNoiseSource ----------------------------
EXTENDS NoiseSource
MCSeedOf == [a |-> 1, b |-> 1, c |-> 2]
MCStreams == [reach |-> 2, venn |-> 2, true |-> 0, fit |-> 2, refused |-> 0]
MCExtra == [reach |-> 0, venn |-> 2, true |-> 0, fit |-> 1, refused |-> 0]
=============================================================================
