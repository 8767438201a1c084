----------------------------- MODULE MCExperiment -----------------------------
EXTENDS Experiment
==============================================================================
