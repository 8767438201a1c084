-------------------------- MODULE ReachCurveTrace ---------------------------
EXTENDS ReachCurve, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Close(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t

Bad(e) ==
  CASE e.op = "train" ->      \* construction of a model from a training point
         C("training-point-not-refused", e.admissible \/ (~e.ok /\ e.err = "ValueError"))
         \cup C("training-point-refused", ~e.admissible \/ e.ok)
    [] e.op = "badquery" ->   \* a query vector of the wrong length
         C("wrong-length-not-refused", ~e.ok /\ e.err = "ValueError")
    [] e.op = "curve" ->
         IF ~e.ok THEN {"prediction-failed"} ELSE
         C("frequencies-returned", \A j \in DOMAIN e.row : Len(e.row[j]) = e.f)
         \cup C("non-negative", NonNegative(e.row, e.tol))
         \cup C("non-increasing-in-k", FallsWithK(e.row, e.tol))
         \cup C("non-decreasing-in-impressions", RisesWithImps(e.row, e.tol))
         \cup C("zero-at-zero", ZeroAtZero(e.imps, e.row, e.tol))
         \cup C("above-maximum-reach", BelowTop(e.row, e.top, e.tol))
         \cup C("above-impressions-per-k", ~e.budget \/ WithinImpressions(e.imps, e.row, e.tol + 1))
         \cup C("impressions-do-not-add-up", ~e.sums \/ AddsUp(e.summed, e.total, e.inv, e.tol + 1))
         \cup C("impressions-carried", e.carried)
         \cup C("history-changes-answers", Prefix(e.short, e.row, e.tol) /\ e.repeat)
    [] e.op = "spend" ->      \* by spend at the training cost per impression
         IF e.priced
         THEN C("by_spend-refused", e.ok) \cup
              (IF e.ok THEN C("by_spend", Close(e.row, e.byimps, e.tol)) \cup C("spend-carried", e.carried)
                            \cup C("impressions_for_spend", e.conv) ELSE {})
         ELSE C("by_spend-without-price-not-refused", ~e.ok /\ e.err = "ValueError")
    [] e.op = "goerg" ->      \* the closed form, in thousandths
         IF ~e.ok THEN {"prediction-failed"} ELSE
         C("goerg-formula", Len(e.milli) = e.f /\ \A k \in 1..e.f :
             LET g == GoergMilli(e.I, e.R, e.i, k) IN e.milli[k] >= g - 1 /\ e.milli[k] <= g + k + 2)
         \cup C("goerg-maximum", Abs(e.max - RhoMilli(e.I, e.R)) <= 1)
         \cup C("goerg-through-training-point", e.i # e.I \/ Abs(e.milli[1] - 1000 * e.R) <= 0)
    [] e.op = "truth" ->      \* ground-truth curve of one publisher's own log
         IF ~e.ok THEN {"prediction-failed"} ELSE
         C("ground-truth-reach", e.row = TrueRow(e.shown, e.i, e.f))
         \cup C("ground-truth-impressions", e.carried)
         \cup C("ground-truth-maximum", e.max = Cardinality(Audience(e.shown)))
    [] OTHER -> {"unknown-event"}

TInit == l = 1 /\ shown = <<>> /\ train = <<1, 0>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
==============================================================================
