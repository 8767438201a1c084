---------------------------- MODULE ReproducibleGen ---------------------------
(* Histories of one process: single trials, whole designs, other work.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS DataSets, Configs, Modes, MaxLen
VARIABLE log
GInit == log = <<>>
Op == [op : {"eval"}, d : DataSets, c : Configs, m : {""}]
      \cup [op : {"design"}, d : {0}, c : 0..1, m : Modes]       \* c: order of the list
      \cup [op : {"draw", "new"}, d : {0}, c : {0}, m : {""}]
      \cup [op : {"read"}, d : DataSets, c : {0}, m : {""}]
GNext == Len(log) < MaxLen /\ \E o \in Op : log' = Append(log, o)
GSpec == GInit /\ [][GNext]_log
Evals == {i \in DOMAIN log : log[i].op \in {"eval", "design"}}
(* a trial is evaluated twice, in different circumstances *)
Emit == (Len(log) = MaxLen /\ \E i, j \in Evals : i < j /\ log[i] # log[j]) => PrintT("GEN " \o ToJson(log))
==============================================================================
