----------------------------- MODULE ExperimentGen ----------------------------
(* Histories of runs: where each run is crashed (trial and step), what is spoilt *)
(* in between, and the mode of each run.                                         *)
EXTENDS Experiment, Json
VARIABLE log
GInit == Init /\ log = <<>>
One == CHOOSE w \in Workers : TRUE
GNext ==
  \/ \E m \in Modes : Start(m) /\ log' = Append(log, [op |-> "run", mode |-> m, t |-> 0, at |-> "end"])
  \/ \E t \in Trials : /\ todo # {} /\ t \in todo /\ (\A y \in todo : t <= y) /\ Take(One, t) /\ log' = log
  \/ Work(One) /\ log' = log
  \/ \E t \in Trials : Spoil(t) /\ log' = Append(log, [op |-> "spoil", mode |-> "", t |-> t, at |-> ""])
  \/ NextPass /\ log' = log
  \/ Finish /\ log' = log
  \/ /\ work[One] # Idle /\ pass = 1 /\ Crash
     /\ log' = [log EXCEPT ![Len(log)].t = work[One].t, ![Len(log)].at = work[One].at]
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == (Complete /\ run = MaxRuns) => PrintT("GEN " \o ToJson(log))
GView == <<log, run, mode, pass, work, todo>>
==============================================================================
