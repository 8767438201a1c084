------------------------ MODULE ShippedDesignsTrace -------------------------
(* An event is one listing of a design: entries as text per factor,             *)
(* their names, a digest of everything they say *)
(* and, for overlaps that need it, whether the universe fits the largest        *)
(* publisher.                                                                   *)
EXTENDS MCShippedDesigns, Json, IOUtils
VARIABLES l, seen, sources
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Bad(e) ==
  CASE e.op = "reset" -> {}
    [] ~e.ok -> {"listing-failed:" \o e.err}
    [] e.op = "list" ->
         LET a == Announced[e.design] IN
         C("number-of-entries", Len(e.entries) = a.n)
         \cup (IF a.kind = "factorial" THEN C("every-combination-once", IsFactorial(e.entries, a.levels))
               ELSE C("levels-used-evenly", IsEven(e.entries, a.levels, a.n)))
         \cup C("names-differ", a.kind = "factorial" \/ e.kind = "data" =>
                                Cardinality(Toset(e.names)) = Len(e.entries))
         \cup C("universe-of-overlap", e.universes)
         \cup C("own-random-source", e.sources)
         \cup C("source-ignores-seed", e.kind = "trials" =>
                  \A k \in DOMAIN sources : (k[1] = e.design /\ k[2] # e.seed) => sources[k] # e.source)
         \cup C("not-reproducible", <<e.design, e.seed>> \in DOMAIN seen => seen[<<e.design, e.seed>>] = e.digest)
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ seen = <<>> /\ sources = <<>> /\ Init
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e) IN
       /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
       /\ seen' = IF e.op = "reset" THEN <<>>
                  ELSE IF e.ok THEN (<<e.design, e.seed>> :> e.digest) @@ seen ELSE seen
       /\ sources' = IF e.op = "reset" THEN <<>>
                     ELSE IF e.ok THEN (<<e.design, e.seed>> :> e.source) @@ sources ELSE sources
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l, seen, sources>>
=============================================================================
