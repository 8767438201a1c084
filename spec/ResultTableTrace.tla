--------------------------- MODULE ResultTableTrace ---------------------------
(* seen: digests of the rows of each trial in the tables so far, by name        *)
EXTENDS ResultTable, Json, IOUtils
VARIABLES l, seen
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Pairs(s) == {<<s[i].dataset, s[i].name>> : i \in DOMAIN s}
BadTable(e) ==
  IF ~e.ok THEN {"run-failed"} ELSE
  C("not-one-row-per-trial", OnePerTrial(e.ids, e.sets, e.configs))
  \cup C("rows-share-a-name", Cardinality(Pairs(e.rows)) = Len(e.rows))
  \cup C("row-differs-from-earlier-run-or-mode",
         \A i \in DOMAIN e.rows : LET k == <<e.rows[i].dataset, e.rows[i].name>> IN
            k \in DOMAIN seen => seen[k] = e.rows[i].digest)
  \cup C("output-file-differs-from-table", e.output)
Bad(e) ==
  CASE e.op = "table" -> BadTable(e)
    [] e.op = "reset" -> {}
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ seen = <<>> /\ list = <<>> /\ todo = {} /\ accs = <<>> /\ table = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ seen' = IF e.op = "reset" THEN <<>>
                   ELSE IF e.op = "table" /\ e.ok
                   THEN seen @@ [k \in Pairs(e.rows) |->
                                   e.rows[CHOOSE i \in DOMAIN e.rows : <<e.rows[i].dataset, e.rows[i].name>> = k].digest]
                   ELSE seen
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l, seen>>
==============================================================================
