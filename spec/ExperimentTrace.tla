---------------------------- MODULE ExperimentTrace ---------------------------
(* The files and rows of real runs are mapped to the variables of Experiment    *)
(* and its invariants evaluated after every event.  An observation is taken     *)
(* whenever a model is fitted, after a crash and at the end of a run:           *)
(*   markers - trials with a marker;  files - per trial "none", "whole" (the    *)
(*   row of an uninterrupted run) or "other";  hashes - of the stored bytes;    *)
(*   strange - markers that belong to no trial.                                 *)
(* stored: bytes of the results of completed trials.                            *)
EXTENDS Experiment, SequencesExt, Json, IOUtils
VARIABLES l, n, cores, stored
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
TT == 1..n
Obs(e) == e.op \in {"fit", "crash", "end", "spoil"}
FileOf(x) == IF x = "other" THEN "torn" ELSE x
Observe(e) ==
  /\ marker' = ToSet(e.markers)
  /\ file' = [t \in TT |-> FileOf(e.files[t])]
Whole(e) == {t \in TT : e.files[t] = "whole" /\ t \notin ToSet(e.markers)}

TReset(e) ==
  /\ n' = e.n /\ cores' = 1 /\ stored' = <<>>
  /\ run' = 0 /\ mode' = "none" /\ pass' = 0 /\ todo' = {} /\ work' = <<>>
  /\ marker' = {} /\ file' = [t \in 1..e.n |-> "none"] /\ rows' = [t \in 1..e.n |-> <<>>]
  /\ evals' = [t \in 1..e.n |-> 0] /\ closed' = {} /\ crashes' = 0 /\ garbage' = 0 /\ stale' = {}
TStart(e) ==
  /\ mode' = e.mode /\ pass' = 1 /\ run' = run + 1 /\ cores' = e.cores
  /\ rows' = [t \in TT |-> <<>>] /\ evals' = [t \in TT |-> 0] /\ todo' = TT
  /\ work' = <<>>
  /\ UNCHANGED <<n, stored, marker, file, closed, crashes, garbage, stale>>
(* several workers: trials that are marked but not yet fitted are in progress too *)
TFit(e) ==
  LET others == IF cores = 1 THEN {} ELSE ToSet(e.markers) \ (closed \cup stale \cup {e.t})
      q == SetToSeq(others)
  IN /\ Observe(e)
     /\ evals' = [evals EXCEPT ![e.t] = @ + 1]
     /\ work' = [i \in 1..(Len(q) + 1) |-> IF i = 1 THEN [t |-> e.t, at |-> "fit"] ELSE [t |-> q[i-1], at |-> "mark"]]
     /\ closed' = closed \cup (Whole(e) \ {e.t})
     /\ stale' = stale \ {e.t}
     /\ stored' = stored @@ [t \in Whole(e) |-> e.hashes[t]]
     /\ UNCHANGED <<n, cores, run, mode, pass, todo, rows, crashes, garbage>>
TCrash(e) ==
  /\ Observe(e) /\ mode' = "none" /\ pass' = 0 /\ todo' = {} /\ work' = <<>>
  /\ stale' = ToSet(e.markers) /\ crashes' = crashes + 1
  /\ closed' = closed \cup Whole(e)
  /\ stored' = stored @@ [t \in Whole(e) |-> e.hashes[t]]
  /\ UNCHANGED <<n, cores, run, rows, evals, garbage>>
TEnd(e) ==
  /\ Observe(e) /\ mode' = "none" /\ pass' = Passes(mode) /\ todo' = {} /\ work' = <<>>
  /\ rows' = [t \in TT |-> e.rows[t]]
  /\ closed' = closed \cup Whole(e)
  /\ stored' = stored @@ [t \in Whole(e) |-> e.hashes[t]]
  /\ UNCHANGED <<n, cores, run, evals, crashes, garbage, stale>>
TSpoil(e) ==
  /\ file' = [file EXCEPT ![e.t] = "garbage"] /\ closed' = closed \ {e.t} /\ pass' = 0
  /\ stored' = [t \in DOMAIN stored \ {e.t} |-> stored[t]]
  /\ garbage' = garbage + 1
  /\ UNCHANGED <<n, cores, run, mode, todo, work, marker, rows, evals, crashes, stale>>
Skip == UNCHANGED <<vars, n, cores, stored>>

Kept(e) == \A t \in (closed \cap DOMAIN stored) : e.hashes[t] = stored[t]
BadFit(e) ==
  C("completed-trial-evaluated-again", e.t \notin closed)
  \cup C("evaluated-twice-in-one-run", OneEvaluationPerRun')
  \cup C("evaluated-without-marker-or-marker-of-another-trial", MarkersNameWork')
  \cup C("more-markers-than-workers", Cardinality(ToSet(e.markers) \ stale) <= cores)
  \cup C("marker-of-no-trial", e.strange = 0)
  \cup C("marker-does-not-name-its-trial", e.named)
  \cup C("stored-result-changed", Kept(e))
BadCrash(e) ==
  C("marker-of-a-completed-trial", ToSet(e.markers) \cap closed = {})
  \cup C("more-markers-than-workers", Cardinality(ToSet(e.markers) \ stale) <= cores)
  \cup C("stored-result-changed", Kept(e))
BadEnd(e) ==
  C("not-one-own-row-per-trial", OneRowEach' /\ e.extra = 0)
  \cup C("pending-after-completion", NothingPending' /\ e.strange = 0)
  \cup C("result-not-stored", AllStored')
  \cup C("stored-result-changed", Kept(e))
  \cup C("output-file-differs-from-table", e.output)
  \cup C("not-evaluated", \A t \in TT \ closed : evals[t] >= 1 \/ file[t] = "whole")
TStep(e) ==
  CASE e.op = "reset" -> TReset(e)
    [] e.op = "start" -> TStart(e)
    [] e.op = "fit" -> IF e.t \in TT THEN TFit(e) ELSE Skip
    [] e.op = "crash" -> TCrash(e)
    [] e.op = "end" -> TEnd(e)
    [] e.op = "spoil" -> TSpoil(e)
    [] OTHER -> Skip
Bad(e) ==
  CASE e.op = "fit" -> IF e.t \in TT THEN BadFit(e) ELSE {"unknown-trial-evaluated"}
    [] e.op = "crash" -> BadCrash(e)
    [] e.op = "end" -> BadEnd(e)
    [] e.op \in {"reset", "start", "spoil"} -> {}
    [] e.op = "failed" -> {"run-did-not-end", e.how}
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ n = 0 /\ cores = 1 /\ stored = <<>> /\ run = 0 /\ mode = "none" /\ pass = 0 /\ todo = {} /\ work = <<>>
         /\ marker = {} /\ file = <<>> /\ rows = <<>> /\ evals = <<>> /\ closed = {} /\ crashes = 0 /\ garbage = 0 /\ stale = {}
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ TStep(e)
     /\ LET bad == Bad(e) IN bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
TSpec == TInit /\ [][TNext]_<<vars, l, n, cores, stored>>
==============================================================================
