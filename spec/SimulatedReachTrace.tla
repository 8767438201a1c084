------------------------ MODULE SimulatedReachTrace -------------------------
EXTENDS MCSimulatedReach, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}

(* counts come as a sequence of <<user, count>> *)
Table(s) == [u \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = u][2]]

Bad(e) ==
  CASE e.op = "short" -> C("short-vector-not-refused", ~e.ok) \cup C("short-vector-measured", e.measured = 0)
    [] ~e.ok -> {"call-failed:" \o e.err}
    [] e.op = "halo" ->
         C("publisher-count", e.count = Len(e.ds))
         \cup C("campaign-spend", e.campaign_ok)
         \cup C("max-spend", e.max_ok)
    [] e.op = "measure" ->
         C("measured-once", e.measured = 1)
         \cup C("merged-audience", Table(e.counts) = Audience(e.ds, e.req, e.camp)
                                   /\ Len(e.counts) = Cardinality({e.counts[i][1] : i \in DOMAIN e.counts}))
         \cup C("sketch-parameters", e.sketches_ok)
         \cup C("frequency-cap", Len(e.est) = e.f /\ Len(e.reach) = e.f)
         \cup C("reaches", e.reach = Answer(e.est, SeqSum(TrueImps(e.ds, e.req))))
         \cup C("non-increasing", \A k \in 1..(Len(e.reach) - 1) : e.reach[k] >= e.reach[k + 1])
         \cup C("negative", \A k \in DOMAIN e.reach : e.reach[k] >= 0)
         \cup C("impressions", e.imps = TrueImps(e.ds, e.req))
         \cup C("spends", e.spends_ok)
         \cup C("universe", e.universe = e.want_universe)
         \cup C("data-set-changed", e.data_same)
    [] OTHER -> {"unknown-event"}

TInit == /\ l = 1 /\ ds = <<>> /\ purchase = <<>> /\ IdleLog /\ phase = "request" /\ camp = <<>> /\ f = 0
         /\ sketches = <<>> /\ merged = <<>> /\ est = <<>> /\ answer = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
