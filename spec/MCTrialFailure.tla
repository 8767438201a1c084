---------------------------- MODULE MCTrialFailure ----------------------------
EXTENDS TrialFailure
MCProgram == <<"fit", "query", "fit", "query", "fit", "points", "truth", "predict", "score", "analysis">>
==============================================================================
