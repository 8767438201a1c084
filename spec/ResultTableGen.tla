---------------------------- MODULE ResultTableGen ----------------------------
(* Histories of an experiment: which configurations and data sets are asked for *)
(* in each run, and in which mode.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DataSets, Configs, Modes, MaxRuns
VARIABLES runs
Lists == UNION {[1..k -> Configs] : k \in 1..3}
GInit == runs = <<>>
GNext == /\ Len(runs) < MaxRuns
         /\ \E m \in Modes, c \in Lists, d \in SUBSET DataSets \ {{}} :
              (* data sets are only added *)
              /\ Len(runs) > 0 => runs[Len(runs)].sets \subseteq d
              /\ runs' = Append(runs, [mode |-> m, list |-> c, sets |-> d])
GSpec == GInit /\ [][GNext]_runs
Emit == Len(runs) = MaxRuns => PrintT("GEN " \o ToJson(runs))
==============================================================================
