---------------------------- MODULE MetricsTrace -----------------------------
EXTENDS Metrics, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Missing == -888888888
Near(a, b, t) == Abs(a - b) <= t
(* s: the reported statistics, each times its denominator; xs, ys: the points *)
BadStats(e) ==
  IF ~e.ok THEN {"aggregation-failed"} ELSE
  LET x == e.xs  y == e.ys  s == e.s
      n == Len(x)
      sh == Shuffles(x, y)
      err == Err(x, y)
      positive(k) == \A i \in DOMAIN x : x[i][k] > 0
  IN C("one-row", e.rows = 1)
     \cup C("points-changed", e.kept)
     \cup C("not-flagged-succeeded", e.succeeded = 1 /\ e.exception = "None")
     \cup C("npoints", s.npoints = n)
     \cup C("mean_error", s.mean_error = SumErr(x, y))
     \cup C("mean_abs_error", s.mean_abs_error = SumAbsErr(x, y))
     \cup C("mean_squared_error", s.mean_squared_error = SumSqErr(x, y))
     \cup C("var_error", s.var_error = VarN2(err))
     \cup C("mean_abs_relative_error", s.mean_abs_relative_error = SumAbsRel(x, y, 1))
     \cup C("mean_squared_relative_error", s.mean_squared_relative_error = SumSqRel(x, y))
     \cup C("var_relative_error", s.var_relative_error = VarN2(RelErr(x, y, 1)))
     \cup UNION {C("relative_error_q" \o ToString(10 * q), s.q[q] = Quantile10(AbsOf(RelErr(x, y, 1)), q)) : q \in 1..9}
     \cup UNION {C("mare_freq_at_least_" \o ToString(k),
            IF ~HasFreq(x, y, k) THEN s.mare[k - 1] = Missing
            ELSE positive(k) => s.mare[k - 1] = SumAbsRel(x, y, k)) : k \in 2..9}
     \cup C("mean_shuffle_distance", Near(n * s.mean_shuffle, SumOf(sh), 2 * n))
     \cup C("mean_squared_shuffle_distance",
            Near(n * s.mean_sq_shuffle, SumSq(sh) \div SD, 4 * n))
     \cup C("var_shuffle_distance",
            LET m == SumOf(sh) \div n
            IN Near(n * s.var_shuffle, SumSq([i \in DOMAIN sh |-> sh[i] - m]) \div SD, 6 * n))
Bad(e) ==
  CASE e.op = "stats" -> BadStats(e)
    [] e.op = "failure" ->
         IF ~e.ok THEN {"failure-row-failed"} ELSE
         C("columns-differ", e.columns = e.expected)
         \cup C("one-row", e.rows = 1)
         \cup C("not-flagged-failed", e.succeeded = 0 /\ e.text)
         \cup C("score-present", e.missing)
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ xs = <<>> /\ ys = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
==============================================================================
