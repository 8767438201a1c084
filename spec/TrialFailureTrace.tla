--------------------------- MODULE TrialFailureTrace --------------------------
(* memo: columns by shape, mechanisms by queries made, digests by trial          *)
EXTENDS TrialFailure, SequencesExt, Json, IOUtils
VARIABLES l, memo
RT == INSTANCE ResultTable WITH DataSets <- {}, Configs <- {}, MaxList <- 0, list <- <<>>, todo <- {}, accs <- <<>>, table <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Same(k, v) == k \in DOMAIN memo => memo[k] = v
Near(a, b) == a - b \in -2..2
(* known: the outcome is determined; else only the shape of the row is *)
Fails(e) == IF e.known THEN FailsAt(e.fault, e.q, e.k, e.calls) ELSE e.succeeded # 1
BadRow(e) ==
  C("column-order-or-set", Same(e.shape, e.cols))
  \cup C("identifying-values", \E t \in RT!TrialsOf(<<e.set>>, <<e.config>>) :
            \A f \in DOMAIN e.id : RT!Identity(t)[f] = e.id[f])
  \cup C("failed-flag", e.succeeded = IF Fails(e) THEN 0 ELSE 1)
  \cup C("error-text", IF Fails(e) THEN e.error /\ ~e.errorNone ELSE e.errorNone)
  \cup C("scores-missing", Fails(e) => e.present = <<>>)
  \cup C("score-value", Fails(e) \/ ~e.known \/ e.score)
  \cup C("consumed-budget", e.known =>
        LET n == IF Fails(e) THEN QueriesBefore(e.fault, e.q) ELSE e.q IN
        IF n = 0 THEN e.usedEps = 0 /\ e.usedDelta = 0
        ELSE Near(e.usedEps * e.q, e.eps * n) /\ Near(e.usedDelta * e.q, e.delta * n) /\ e.queries = n)
  \cup C("mechanisms", e.known => (Same(e.mechKey, e.mechs) /\ (e.mechs = "" <=> e.usedEps = 0)))
  \cup C("row-differs-from-earlier", Same(e.trial, e.digest))
BadRun(e) ==
  IF ~e.ok THEN {"run-failed"} ELSE
  C("number-of-rows", e.rows = Cardinality(RT!TrialsOf(e.sets, e.configs)))
  \cup C("marker-left", e.markers = 0)
  \cup C("stored-row-differs", e.storedSame)
  \cup C("evaluated-again", e.rerun => e.fits = 0)
  \cup C("not-evaluated", ~e.rerun => e.fits >= e.rows)
Bad(e) ==
  CASE e.op = "row" -> BadRow(e)
    [] e.op = "run" -> BadRun(e)
    [] e.op = "reset" -> {}
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ memo = <<>> /\ pc = <<>> /\ used = <<>> /\ fault = <<>> /\ row = <<>> /\ stored = <<>> /\ marked = {} /\ reruns = 0
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ memo' = IF e.op = "reset" THEN <<>>
                   ELSE IF e.op = "row"
                   THEN memo @@ (e.shape :> e.cols) @@ (e.trial :> e.digest) @@ (IF e.known THEN e.mechKey :> e.mechs ELSE <<>>)
                   ELSE memo
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l, memo>>
==============================================================================
