------------------------------ MODULE Experiment ------------------------------
(* C15, C16.  Runs of an experiment over one directory.  A run hands the trials *)
(* to workers; a trial is looked up, marked as pending, evaluated, its result   *)
(* written in two steps (a crash in between leaves a torn file) and unmarked.   *)
(* With more than one pass ("parallel"), the first passes only fill the store   *)
(* and the last one collects the rows; a pipeline may evaluate a bundle again.  *)
(* A crash stops every worker at once and leaves the files as they are.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Trials, Workers, MaxRuns, MaxCrashes, MaxGarbage, Modes

VARIABLES run, mode, pass, todo, work, marker, file, rows, evals, closed, crashes, garbage, stale
vars == <<run, mode, pass, todo, work, marker, file, rows, evals, closed, crashes, garbage, stale>>

Idle == [t |-> 0, at |-> "idle"]
Passes(m) == IF m = "parallel" THEN 2 ELSE 1
InProgress == {work[w].t : w \in DOMAIN work} \ {0}
Live == mode # "none"

Init ==
  /\ run = 0 /\ mode = "none" /\ pass = 0 /\ todo = {}
  /\ work = [w \in Workers |-> Idle]
  /\ marker = {} /\ file = [t \in Trials |-> "none"] /\ rows = [t \in Trials |-> <<>>]
  /\ evals = [t \in Trials |-> 0]
  /\ closed = {}          \* trials whose evaluation was completed and not spoilt since
  /\ crashes = 0 /\ garbage = 0
  /\ stale = {}           \* markers left behind by crashes

Start(m) ==
  /\ ~Live /\ run < MaxRuns
  /\ run' = run + 1 /\ mode' = m /\ pass' = 1 /\ todo' = Trials
  /\ rows' = [t \in Trials |-> <<>>]
  /\ evals' = [t \in Trials |-> 0]
  /\ UNCHANGED <<work, marker, file, closed, crashes, garbage, stale>>

Active == IF mode = "serial" \/ pass = Passes(mode) THEN {CHOOSE w \in Workers : TRUE} ELSE Workers
Take(w, t) ==
  /\ Live /\ w \in Active /\ work[w] = Idle /\ t \in todo
  /\ todo' = todo \ {t}
  /\ work' = [work EXCEPT ![w] = [t |-> t, at |-> "look"]]
  /\ UNCHANGED <<run, mode, pass, marker, file, rows, evals, closed, crashes, garbage, stale>>

Row(t, v) == IF pass = Passes(mode) THEN [rows EXCEPT ![t] = Append(@, v)] ELSE rows
To(w, at) == work' = [work EXCEPT ![w].at = at]
(* what a reader of the stored file gets *)
Content(t) == IF file[t] = "whole" THEN "own" ELSE file[t]
Step(w) ==
  LET t == work[w].t IN
  \/ /\ work[w].at = "look"
     /\ IF file[t] \in {"whole", "torn"} /\ t \notin marker
        THEN work' = [work EXCEPT ![w] = Idle] /\ rows' = Row(t, Content(t))
        ELSE To(w, "mark") /\ rows' = rows
     /\ file' = IF file[t] = "garbage" /\ t \notin marker THEN [file EXCEPT ![t] = "none"] ELSE file
     /\ UNCHANGED <<marker, evals, closed, stale>>
  \/ /\ work[w].at = "mark" /\ To(w, "fit")
     /\ marker' = marker \cup {t} /\ stale' = stale \ {t}
     /\ UNCHANGED <<file, rows, evals, closed>>
  \/ /\ work[w].at = "fit" /\ To(w, "write")
     /\ evals' = [evals EXCEPT ![t] = @ + 1]
     /\ UNCHANGED <<marker, file, rows, closed, stale>>
  \/ /\ work[w].at = "write" /\ To(w, "writing")
     /\ file' = [file EXCEPT ![t] = "torn"]
     /\ UNCHANGED <<marker, rows, evals, closed, stale>>
  \/ /\ work[w].at = "writing" /\ To(w, "written")
     /\ file' = [file EXCEPT ![t] = "whole"]
     /\ UNCHANGED <<marker, rows, evals, closed, stale>>
  \/ /\ work[w].at = "written"
     /\ work' = [work EXCEPT ![w] = Idle]
     /\ marker' = marker \ {t} /\ closed' = closed \cup {t}
     /\ rows' = Row(t, "own")
     /\ UNCHANGED <<file, evals, stale>>
Work(w) == Live /\ work[w] # Idle /\ Step(w) /\ UNCHANGED <<run, mode, pass, todo, crashes, garbage>>

(* a pipeline may process a trial again whose bundle was retried: not collected twice *)
Retry(t) ==
  /\ mode = "pipeline" /\ t \notin todo /\ t \notin InProgress /\ rows[t] # <<>>
  /\ todo' = todo \cup {t} /\ rows' = [rows EXCEPT ![t] = <<>>]
  /\ garbage' = garbage + 1 /\ garbage < MaxGarbage
  /\ UNCHANGED <<run, mode, pass, work, marker, file, evals, closed, crashes, stale>>
NextPass ==
  /\ Live /\ todo = {} /\ InProgress = {} /\ pass < Passes(mode)
  /\ pass' = pass + 1 /\ todo' = Trials
  /\ UNCHANGED <<run, mode, work, marker, file, rows, evals, closed, crashes, garbage, stale>>
Finish ==
  /\ Live /\ todo = {} /\ InProgress = {} /\ pass = Passes(mode)
  /\ mode' = "none" /\ UNCHANGED <<run, pass, todo, work, marker, file, rows, evals, closed, crashes, garbage, stale>>
Crash ==
  /\ Live /\ crashes < MaxCrashes
  /\ crashes' = crashes + 1 /\ mode' = "none" /\ todo' = {} /\ pass' = 0
  /\ work' = [w \in Workers |-> Idle]
  /\ stale' = marker
  /\ UNCHANGED <<run, marker, file, rows, evals, closed, garbage>>
(* someone spoils a stored result between runs, so that it cannot be read *)
Spoil(t) ==
  /\ ~Live /\ file[t] = "whole" /\ garbage < MaxGarbage
  /\ file' = [file EXCEPT ![t] = "garbage"] /\ closed' = closed \ {t} /\ garbage' = garbage + 1
  /\ pass' = 0
  /\ UNCHANGED <<run, mode, todo, work, marker, rows, evals, crashes, stale>>

Next ==
  \/ \E m \in Modes : Start(m)
  \/ \E w \in Workers, t \in Trials : Take(w, t)
  \/ \E w \in Workers : Work(w)
  \/ \E t \in Trials : Retry(t) \/ Spoil(t)
  \/ NextPass \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(\E w \in Workers : Work(w)) /\ WF_vars(NextPass) /\ WF_vars(Finish)
             /\ WF_vars(\E w \in Workers, t \in Trials : Take(w, t))

(* ---- C15: one row per trial, the trial's own ------------------------------- *)
Complete == mode = "none" /\ pass > 0
OneRowEach == Complete => \A t \in DOMAIN file : rows[t] = <<"own">>
NeverForeign == \A t \in DOMAIN file : \A i \in DOMAIN rows[t] : rows[t][i] = "own"
(* ---- C16 -------------------------------------------------------------------- *)
TornIsMarked == \A t \in DOMAIN file : file[t] = "torn" => t \in marker
MarkersNameWork ==
  /\ marker \subseteq InProgress \cup stale
  /\ \A w \in DOMAIN work : work[w].at \in {"fit", "write", "writing", "written"} => work[w].t \in marker
NothingPending == Complete => marker = {}
AllStored == Complete => \A t \in DOMAIN file : file[t] = "whole"
OneEvaluationPerRun == \A t \in DOMAIN file : evals[t] <= 1
(* a completed trial is neither evaluated again nor is its result touched *)
ClosedStays == [][\A t \in closed : evals'[t] <= evals[t] /\ (file'[t] = file[t] \/ t \notin closed')]_vars
(* every run that is not crashed ends *)
Ends == Live ~> ~Live
==============================================================================
