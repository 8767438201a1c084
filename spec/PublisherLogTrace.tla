------------------------- MODULE PublisherLogTrace -------------------------
(* Checks recorded calls on the real PublisherData against PublisherLog.       *)
(* Prices and spends are recorded as ranks: the r-th distinct price of the log *)
(* is 2*r, values between prices are odd, so that only their order matters.    *)
(* Count tables are recorded as sequences of <<user, count>>.                  *)
EXTENDS PublisherLog, Json, IOUtils

VARIABLES l, seen   \* position in the trace; n -> counts answered by impressions

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Table(s) == [u \in {s[i][1] : i \in DOMAIN s} |->
               LET k == {i \in DOMAIN s : s[i][1] = u} IN
               IF Cardinality(k) = 1 THEN s[CHOOSE i \in k : TRUE][2] ELSE -1]

C(name, ok) == IF ok THEN {} ELSE {name}

(* The failing clauses of event e when the log was built from g *)
Bad(e, g) ==
  IF ~e.ok THEN {"call-failed:" \o e.err}
  ELSE CASE e.op = "build" ->
         C("caller-list-changed", e.after = e.before)
         \cup C("max_impressions", e.max_impressions = Len(e.before))
         \cup C("max_spend", e.max_spend = MaxSpend(e.before))
         \cup C("max_reach", e.max_reach = MaxReach(e.before))
         \cup C("name", e.name_ok)
    [] e.op = "totals" ->
         C("max_impressions", e.max_impressions = Len(g))
         \cup C("max_spend", e.max_spend = MaxSpend(g))
         \cup C("max_reach", e.max_reach = MaxReach(g))
         \cup C("caller-list-changed", e.callerok)
    [] e.op = "mutate" -> {}
    [] e.op = "counts_by_spend" ->
         C("counts_by_spend", Table(e.val) = CountsBySpend(g, e.arg))
    [] e.op = "imps_by_spend" ->
         C("impressions_by_spend", e.val = ImpsBySpend(g, e.arg))
    [] e.op = "spend_by_imps" ->
         IF e.arg = 0 THEN C("spend-for-none", e.zero)
         ELSE C("spend_by_impressions", e.val = NthPrice(g, Clip(g, e.arg)))
    [] e.op = "counts_by_imps" ->
         LET c == Table(e.val) IN
         C("counts_by_impressions", AllowedByImps(g, e.arg, c))
         \cup C("one-arrangement",
                \A n \in DOMAIN seen :
                    /\ (n <= e.arg => LeqCounts(seen[n], c))
                    /\ (n >= e.arg => LeqCounts(c, seen[n])))
    [] OTHER -> {"unknown-event"}

TInit == /\ l = 1 /\ seen = <<>>
         /\ caller = <<>> /\ given = <<>> /\ arr = <<>> /\ built = FALSE
         /\ answers = {} /\ ops = 0

TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e, given)
     IN /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
        /\ given' = IF e.op = "build" THEN e.before ELSE given
        /\ seen' = IF e.op = "build" THEN <<>>
                   ELSE IF e.op = "counts_by_imps" /\ e.ok /\ bad = {}
                        THEN (e.arg :> Table(e.val)) @@ seen
                   ELSE seen
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED <<caller, arr, built, answers, ops>>

TSpec == TInit /\ [][TNext]_<<vars, l, seen>>
=============================================================================
