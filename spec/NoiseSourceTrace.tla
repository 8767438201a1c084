-------------------------- MODULE NoiseSourceTrace --------------------------
(* A query event has the system (sys, seed), the query itself as text (q), what *)
(* came out (answer), the state of the noise source before each noised quantity *)
(* (streams), whether it is a question about the truth (truth), and whether the *)
(* global source was left alone (globkept).  "world" starts a new data set.     *)
EXTENDS MCNoiseSource, Json, IOUtils
VARIABLES l,
          seen     \* <<seed, history>> -> what came out
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}

Key(e) == <<e.seed, Append(hist[e.sys], e.q)>>
Bad(e) ==
  CASE e.op \in {"world", "foreign"} -> {}
    [] e.op = "query" ->
         C("noise-shared-within-a-query", Distinct(e.streams))
         \cup C("noise-used-before", Toset(e.streams) \cap Toset(used[e.sys]) = {})
         \cup C("noise-of-another-source", \A t \in Systems : SeedOf[t] # e.seed =>
                  Toset(e.streams) \cap Toset(used[t]) = {})
         \cup C("not-repeatable", Key(e) \in DOMAIN seen => seen[Key(e)] = <<e.answer, e.streams>>)
         \cup C("global-source-touched", e.globkept)
         \cup C("truth-is-noised", e.truth => e.streams = <<>>)
         \cup C("nothing-noised", e.must => e.streams # <<>>)
    [] OTHER -> {"unknown-event"}

TInit == l = 1 /\ Init /\ seen = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e) IN
       /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
       /\ used' = IF e.op = "world" THEN [s \in Systems |-> <<>>]
                  ELSE IF e.op = "query" THEN [used EXCEPT ![e.sys] = @ \o e.streams] ELSE used
       /\ hist' = IF e.op = "world" THEN [s \in Systems |-> <<>>]
                  ELSE IF e.op = "query" /\ ~e.truth THEN [hist EXCEPT ![e.sys] = Append(@, e.q)] ELSE hist
       /\ seen' = IF e.op = "world" THEN <<>>
                  ELSE IF e.op = "query" THEN (Key(e) :> <<e.answer, e.streams>>) @@ seen ELSE seen
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED <<pos, glob>>
TSpec == TInit /\ [][TNext]_<<vars, l, seen>>
=============================================================================
