------------------------- MODULE DataSetReachTrace -------------------------
(* Checks recorded calls on the real DataSet.  Prices and spends are ranks     *)
(* within each publisher (2*rank, odd between).                                *)
EXTENDS DataSetReach, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Table(s) == [u \in {s[i][1] : i \in DOMAIN s} |->
               LET k == {i \in DOMAIN s : s[i][1] = u} IN
               IF Cardinality(k) = 1 THEN s[CHOOSE i \in k : TRUE][2] ELSE -1]

Refused(e) == ~e.ok /\ e.err = "ValueError"

Bad(e, d) ==
  CASE e.op = "wrong_length" ->
         C("wrong-length-not-refused", Refused(e))
    [] ~e.ok -> {"call-failed:" \o e.err}
    [] e.op = "build" ->
         C("publisher_count", e.count = Len(e.ds))
         \cup C("maximum_reach", e.maximum_reach = DsMaxReach(e.ds))
         \cup C("universe_size",
                e.universe = IF e.given_universe >= 0 THEN e.given_universe
                             ELSE DefaultUniverse(e.ds))
         \cup C("name", e.name_ok)
    [] e.op = "meta" ->
         C("publisher_count", e.count = Len(d))
         \cup C("maximum_reach", e.maximum_reach = DsMaxReach(d))
         \cup C("universe_size", e.universe = e.expect_universe)
         \cup C("publisher-names", e.names = e.pubs)
    [] e.op = "reach_by_spend" ->
         C("reach_by_spend", e.reach = TrueReach(d, e.arg, e.f))
         \cup C("impressions", e.imps = TrueImps(d, e.arg))
         \cup C("spends", e.spends = e.arg)
         \cup C("universe", e.universe = e.expect_universe)
    [] e.op = "pub_reach" ->   \* a simulated publisher's own true reach
         LET one == <<d[e.i]>> IN
         C("publisher-reach", e.reach = TrueReach(one, <<e.arg>>, e.f))
         \cup C("publisher-impressions", e.imps = TrueImps(one, <<e.arg>>))
         \cup C("publisher-spend", e.spends = <<e.arg>>)
    [] e.op = "reach_by_impressions" ->
         LET tabs == [i \in DOMAIN d |-> Table(e.pubcounts[i])] IN
         C("publisher-counts", \A i \in DOMAIN d : AllowedByImps(d[i], e.arg[i], tabs[i]))
         \cup C("reach_by_impressions", e.reach = KPlusSeq(Combine(tabs), e.f))
         \cup C("impressions", e.imps = e.arg)
         \cup C("spends", \A i \in DOMAIN d :
                  IF e.arg[i] = 0 THEN e.zero[i]
                  ELSE e.spends[i] = NthPrice(d[i], Clip(d[i], e.arg[i])))
         \cup C("universe", e.universe = e.expect_universe)
    [] e.op = "impressions_by_spend" ->
         C("impressions_by_spend", e.val = TrueImps(d, e.arg))
    [] e.op = "spend_by_impressions" ->
         C("spend_by_impressions", \A i \in DOMAIN d :
                  IF e.arg[i] = 0 THEN e.zero[i]
                  ELSE e.val[i] = NthPrice(d[i], Clip(d[i], e.arg[i])))
    [] OTHER -> {"unknown-event"}

TInit == l = 1 /\ ds = <<>> /\ purchase = <<>> /\ IdleLog
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e, ds)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ ds' = IF e.op = "build" THEN e.ds ELSE ds
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED <<purchase, vars>>
TSpec == TInit /\ [][TNext]_<<dvars, l>>
=============================================================================
