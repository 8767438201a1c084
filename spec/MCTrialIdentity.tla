--------------------------- MODULE MCTrialIdentity ---------------------------
EXTENDS TrialIdentity
A == {<<>>, <<<<"a", "1">>>>, <<<<"a", "1">>, <<"b", "1">>>>}
S == {<<"0">>, <<"1", "1">>}
==============================================================================
