-------------------------- MODULE TestPointsTrace ----------------------------
EXTENDS TestPoints, Json, IOUtils
VARIABLES l, seen
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
(* e.cells: the cell of each coordinate; e.inbox: all coordinates in [0, max] *)
BadPoints(e) ==
  IF ~e.ok THEN {"generation-failed"} ELSE
  C("one-coordinate-per-publisher", \A i \in DOMAIN e.lens : e.lens[i] = e.p)
  \cup C("outside-the-spend-box", e.inbox)
  \cup C("data-set-or-settings-changed", e.kept)
  \cup (CASE e.strategy = "grid" ->
               C("wrong-number-of-points", Len(e.lens) = GridCount(e.size, e.p))
               \cup C("not-the-grid", IsGrid(e.cells, e.size, e.p))
          [] e.strategy = "uniform" ->
               C("wrong-number-of-points", Len(e.lens) = RandomCount(e.size, e.npub, e.perpub))
               \cup C("box-not-covered", e.degenerate \/ Len(e.lens) < 100 \/ Spread(e.cells, e.p))
          [] e.strategy = "latin" ->
               LET n == LatinCount(e.size, e.npub, e.perpub, 100, 2000) IN
               C("wrong-number-of-points", Len(e.lens) = n)
               \cup C("slice-missed-or-hit-twice", e.degenerate \/ IsLatin(e.cells, n, e.p))
               \cup C("box-not-covered", e.degenerate \/ Spread(e.quarters, e.p)))
(* key: data set, settings and state of the generator's own random source     *)
BadMemo(e) ==
  IF ~e.ok THEN {} ELSE
  C("not-reproducible", e.key \in DOMAIN seen => seen[e.key].digest = e.digest)
  \cup C("random-source-ignored",
         e.strategy = "grid" \/ e.degenerate \/
         \A k \in DOMAIN seen : k # e.key => seen[k].set # e.set)
Bad(e) ==
  CASE e.op = "points" -> BadPoints(e) \cup BadMemo(e)
    [] e.op = "refuse" -> C("unknown-strategy-not-refused", ~e.ok /\ e.err = "ValueError")
    [] e.op = "reset" -> {}
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ seen = <<>> /\ npub = 0 /\ strategy = "" /\ size = 0 /\ points = <<>> /\ own = 0 /\ glob = 0 /\ memo = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ seen' = IF e.op = "reset" THEN <<>>
                   ELSE IF e.op = "points" /\ e.ok THEN [x \in {e.key} |-> [digest |-> e.digest, set |-> e.set]] @@ seen ELSE seen
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l, seen>>
==============================================================================
