------------------------- MODULE ReachSurfaceTrace --------------------------
EXTENDS ReachSurface, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Bad(e) ==
  CASE e.op = "fit" ->
         C("fit-failed", e.ok)
         \cup C("caller-data-changed", e.kept)
         \cup (IF ~e.ok \/ ~e.seen THEN {} ELSE
               C("parameters-outside-constraints",
                 IF e.kind = "mixture" THEN MixFeasible(e.a, 1000000, e.tol)
                                       ELSE PairFeasible(e.a, 1000000, e.tol)))
    [] e.op = "refuse" -> C("not-refused", ~e.ok /\ e.err = "ValueError")
    [] e.op = "predict" ->     \* r: the curves' own reaches; u: predicted unions along increasing impressions
         IF ~e.ok THEN {"prediction-failed"} ELSE
         C("below-largest-or-above-sum", \A s \in DOMAIN e.u : Bounded(e.u[s], e.r[s], e.tol))
         \cup C("decreasing-in-impressions", \A s \in 1..(Len(e.u) - 1) : e.u[s] <= e.u[s + 1] + e.tol)
         \cup C("impressions-carried", e.carried)
         \cup C("not-repeatable", e.same)
    [] e.op = "alone" ->       \* one active publisher
         IF ~e.ok THEN {"prediction-failed"} ELSE C("alone-differs-from-own-curve", Abs(e.u - e.own) <= e.tol)
    [] e.op = "spend" ->
         IF ~e.ok THEN {"prediction-failed"} ELSE C("by_spend", e.u = e.byimps)
    [] e.op = "explained" ->   \* training points that admissible parameters explain exactly
         IF ~e.ok THEN {"prediction-failed"} ELSE
         C("explained-points-not-reproduced", \A s \in DOMAIN e.u : Abs(e.u[s] - e.y[s]) <= e.tol)
    [] e.op = "later" ->       \* the same questions before and after the caller changed its lists
         IF ~e.ok THEN {"prediction-failed"} ELSE C("follows-later-changes-of-the-caller", e.u = e.v)
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ m = <<>> /\ r = <<>> /\ a = <<>> /\ kind = ""
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
==============================================================================
