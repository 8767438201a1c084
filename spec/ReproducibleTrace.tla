--------------------------- MODULE ReproducibleTrace --------------------------
(* memo: rows and test points seen so far, by what they may depend on           *)
EXTENDS Reproducible, SequencesExt, Json, IOUtils
VARIABLES l, memo
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Same(k, v) == k \in DOMAIN memo => memo[k] = v
BadRow(e) ==
  C("row-depends-on-history", Same(e.key, e.row))
  \cup C("test-points-differ", e.pkey = "" \/ Same(e.pkey, e.points))
BadWork(e) ==
  IF ~e.ok THEN {"evaluation-failed"} ELSE
  C("configuration-changed", e.cfg)
  \cup C("data-set-changed", e.data)
Bad(e) ==
  CASE e.op = "row" -> BadRow(e)
    [] e.op = "work" -> BadWork(e)
    [] e.op = "reset" -> {}
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ memo = <<>> /\ glob = <<>> /\ own = <<>> /\ cached = {} /\ seen = <<>> /\ points = <<>> /\ steps = 0
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ memo' = IF e.op = "reset" THEN <<>>
                   ELSE IF e.op = "row"
                   THEN memo @@ (e.key :> e.row) @@ (IF e.pkey = "" THEN <<>> ELSE e.pkey :> e.points)
                   ELSE memo
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l, memo>>
==============================================================================
