----------------------------- MODULE TrialFailure -----------------------------
(* C18.  Trials of one run, each a program of steps: model queries that spend   *)
(* budget, test points, true reach, predictions, scoring and the single         *)
(* publisher analysis.  Any step of any trial may fail, once.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Trials, Program, MaxReruns

VARIABLES pc, used, fault, row, stored, marked, reruns
vars == <<pc, used, fault, row, stored, marked, reruns>>

None == [state |-> "none"]
Idle(t) == pc[t] = 0
Columns == <<"dataset", "trial", "budget", "used", "succeeded", "error", "score">>
Done(t, u) == [state |-> "row", cols |-> Columns, trial |-> t, used |-> u, succeeded |-> 1, error |-> "None", score |-> t]
Failed(t, u, e) == [state |-> "row", cols |-> Columns, trial |-> t, used |-> u, succeeded |-> 0, error |-> e, score |-> "NA"]

Init == /\ pc = [t \in Trials |-> 0] /\ used = [t \in Trials |-> 0] /\ fault = [t \in Trials |-> 0]
        /\ row = [t \in Trials |-> None] /\ stored = [t \in Trials |-> None] /\ marked = {} /\ reruns = 0
Start(t) ==
  /\ Idle(t) /\ row[t] = None
  /\ IF stored[t] # None
     THEN row' = [row EXCEPT ![t] = stored[t]] /\ UNCHANGED <<pc, used, fault, stored, marked, reruns>>
     ELSE pc' = [pc EXCEPT ![t] = 1] /\ used' = [used EXCEPT ![t] = 0] /\ marked' = marked \cup {t}
          /\ UNCHANGED <<fault, row, stored, reruns>>
Step(t) ==
  /\ pc[t] \in DOMAIN Program
  /\ used' = IF Program[pc[t]] = "query" THEN [used EXCEPT ![t] = @ + 1] ELSE used
  /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<fault, row, stored, marked, reruns>>
End(t, r) ==
  /\ row' = [row EXCEPT ![t] = r] /\ stored' = [stored EXCEPT ![t] = r]
  /\ marked' = marked \ {t} /\ pc' = [pc EXCEPT ![t] = 0]
Fail(t) ==
  /\ pc[t] \in DOMAIN Program
  /\ fault' = [fault EXCEPT ![t] = pc[t]]
  /\ End(t, Failed(t, used[t], Program[pc[t]])) /\ UNCHANGED <<used, reruns>>
Finish(t) == pc[t] = Len(Program) + 1 /\ End(t, Done(t, used[t])) /\ UNCHANGED <<used, fault, reruns>>
Rerun == /\ \A t \in Trials : row[t] # None /\ reruns < MaxReruns
         /\ row' = [t \in Trials |-> None] /\ reruns' = reruns + 1 /\ UNCHANGED <<pc, used, fault, stored, marked>>
Next == Rerun \/ \E t \in Trials : Start(t) \/ Step(t) \/ Fail(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

Spent(k) == Cardinality({i \in 1..k : Program[i] = "query"})
(* a row is a function of the trial and of its own fault *)
RowOf(t) == IF fault[t] = 0 THEN Done(t, Spent(Len(Program))) ELSE Failed(t, Spent(fault[t] - 1), Program[fault[t]])
RowsRight == \A t \in Trials : row[t] # None => row[t] = RowOf(t)
StoredRight == \A t \in Trials : stored[t] # None => stored[t] = RowOf(t)
MarkedInProgress == \A t \in Trials : t \in marked <=> pc[t] > 0
Independent == [][\A t \in Trials : pc[t] = pc'[t] /\ row[t] # None /\ row'[t] # None => row[t] = row'[t]]_vars
StoredKept == [][\A t \in Trials : stored[t] # None => stored'[t] = stored[t]]_vars

(* ---- where the program of a real trial fails ------------------------------------ *)
(* f: [phase, at]; q queries, k test points, c predictions made after scoring         *)
FailsAt(f, q, k, c) ==
  CASE f.phase = "fit" -> f.at <= q
    [] f.phase = "halo" -> f.at \in 1..q
    [] f.phase \in {"points", "truth"} -> f.at <= k
    [] f.phase = "predict" -> f.at \in 1..(k + c)
    [] f.phase = "score" -> TRUE
    [] OTHER -> FALSE
QueriesBefore(f, q) == IF f.phase \in {"fit", "halo"} /\ f.at <= q THEN f.at ELSE q
==============================================================================
