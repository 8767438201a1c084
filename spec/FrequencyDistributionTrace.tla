--------------------- MODULE FrequencyDistributionTrace ----------------------
EXTENDS FrequencyDistribution, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, t) == Abs(x - y) <= t
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Close(s[i], t[i], tol)
NonNeg(s, tol) == \A i \in DOMAIN s : s[i] >= -tol
U == 100000000                    \* probabilities are recorded in units of 1/U
V == 10000                        \* and, in mixtures, of 1/V
SumTol(s) == Len(s) + 10
(* head: probabilities of frequencies 0..h; rest: of all higher ones; a: the  *)
(* given leading probabilities in units of 1/mass                             *)
Leading(e) ==
  LET s == SumOf(e.a) IN
  \A i \in DOMAIN e.a :
    LET w == IF s > e.mass THEN s ELSE e.mass
    IN Close(e.head[i + 1] * w, e.a[i] * U, 2 * w)
BadPmf(e) ==
  C("not-constructed", e.ok) \cup
  (IF ~e.ok THEN {} ELSE
   C("mass-on-zero", e.head[1] = 0)
   \cup C("negative-probability", NonNeg(e.head, 1) /\ e.lowest >= -1)
   \cup C("does-not-sum-to-one", Close(SumOf(e.head) + e.rest, U, SumTol(e.head)))
   \cup C("leading-probabilities", Leading(e))
   \cup C("caller-data-changed", e.kept))
BadTail(e) ==                     \* t[i]: probability of frequency k + i, i = 1..
  IF ~e.ok THEN {"not-constructed"} ELSE
  C("tail-not-gamma-poisson",
    \A i \in 1..(Len(e.t) - 1) : GPStep(e.t[i], e.t[i + 1], e.k + i, e.a4, e.b4, 2))
  \cup C("tail-mass-misplaced", e.last <= 1000)
(* kr[k + 1] = kreach(k), kp[k + 1] = kplusreach(k); head as above, all of it *)
BadThin(e) ==
  IF ~e.ok THEN {"thinning-failed"} ELSE
  LET want == Thin(e.head, e.num, e.den)
      tol == 2 * Len(e.head) + 20
  IN C("k-reach", \A k \in DOMAIN e.kr : Close(e.kr[k], At(want, k), tol + e.rest))
     \cup C("k-reach-negative", NonNeg(e.kr, 10))
     \cup C("k-plus-reach", \A k \in DOMAIN e.kp : Close(e.kp[k], U - SumOf(SubSeq(e.kr, 1, k - 1)), 20))
     \cup C("k-plus-zero-is-one", e.kp[1] = U)
     \cup C("depends-on-range-asked", CloseSeq(e.part, SubSeq(e.kr, e.lo + 1, e.hi + 1), 10))
     \cup C("not-repeatable", e.same)
(* p increasing along the rows: law only, any parameters *)
BadLaw(e) ==
  IF ~e.ok THEN {"thinning-failed"} ELSE
  C("k-reach-negative", \A i \in DOMAIN e.rows : NonNeg(e.rows[i], 10))
  \cup C("k-plus-reach", \A i \in DOMAIN e.rows :
         \A k \in DOMAIN e.plus[i] : Close(e.plus[i][k], U - SumOf(SubSeq(e.rows[i], 1, k - 1)), 20))
  \cup C("k-plus-decreases-with-inclusion",
         \A i \in 1..(Len(e.plus) - 1) : \A k \in DOMAIN e.plus[i] : e.plus[i][k] <= e.plus[i + 1][k] + 30)
  \cup C("nobody-shown-nobody-reached", e.rows[1][1] >= U - 10)
  \cup C("inclusion-one-is-the-distribution", CloseSeq(e.rows[Len(e.rows)], e.head, 10))
  \cup C("mean-scales-with-inclusion",
         LET d == Len(e.rows) - 1 IN \A i \in DOMAIN e.mean : Close(d * e.mean[i], (i - 1) * e.ev, 20 * d))
(* Poisson mixture *)
BadGrid(e) ==                     \* counts[f + 1]: components in [f, f + 1), the last: beyond
  IF ~e.ok THEN {"grid-failed"} ELSE
  C("too-few-components", SumOf(e.counts) >= e.n)
  \cup C("component-out-of-range", e.inrange)
  \cup C("not-proportional",      \* one interval may hold the remainder or end the placement
         LET placed(f) == SumOf(SubSeq(e.counts, 1, f)) IN
         \A f \in 1..(Len(e.counts) - 1) :
            \/ 2 * Abs(e.counts[f] * e.total - e.n * e.hist[f]) <= e.total
            \/ e.counts[f] = 0 /\ placed(f) >= e.n)
  \cup C("not-evenly-spaced", e.even)
BadFit(e) ==
  IF ~e.ok THEN {"fit-failed"} ELSE
  C("caller-data-changed", e.kept)
  \cup (IF ~e.seen THEN {} ELSE
   C("negative-weight", NonNeg(e.ws, 50))
   \cup C("weights-do-not-sum-to-one", Close(SumOf(e.ws), 1000000, 100))
   \cup C("weights-per-component", Len(e.ws) = e.ncomp)
   \cup C("another-mixture-fits-better",      \* directional derivative of the likelihood
          e.small \/ \A j \in DOMAIN e.grad : e.grad[j] <= V + V \div 50))
BadPredict(e) ==
  IF ~e.ok THEN {"predict-failed"} ELSE
  C("wrong-length", Len(e.hist) = e.cap + 1)
  \cup C("negative-probability", NonNeg(e.hist, 2000))
  \cup C("does-not-sum-to-one", Close(SumOf(e.hist), U, 20000))
  \cup C("not-repeatable", e.same)
  \cup (IF e.scale0 THEN C("nothing-bought-nobody-reached", e.hist[1] >= U - 20000) ELSE {})
BadCaps(e) ==                     \* the same prediction under caps c and C >= c
  C("capping-moves-mass", CloseSeq(e.low, Cap(e.high, Len(e.low) - 1), 200))
BadScales(e) ==                   \* predictions along increasing scaling
  C("more-impressions-reach-fewer",
    \A i \in 1..(Len(e.hists) - 1) : \A k \in 0..(Len(e.hists[i]) - 1) :
       Plus(e.hists[i], k) <= Plus(e.hists[i + 1], k) + 20000)
BadMix(e) ==                      \* hist = sum_j ws[j] * vs[j]
  LET mix(i) == SumOf([j \in DOMAIN e.ws |-> e.ws[j] * e.vs[j][i]]) \div V
  IN C("not-the-mixture", Len(e.ws) = Len(e.vs) /\
       \A i \in DOMAIN e.hist : Close(e.hist[i], mix(i), Len(e.ws) + 5))
BadPoisson(e) ==
  IF ~e.ok THEN {"poisson-failed"} ELSE
  C("wrong-length", Len(e.v) = e.cap + 1)
  \cup C("negative-probability", NonNeg(e.v, 0))
  \cup C("does-not-sum-to-one", Close(SumOf(e.v), 1000000, Len(e.v)))
  \cup C("not-poisson", \A f \in 0..(e.cap - 2) : PoissonStep(e.v[f + 1], e.v[f + 2], f, e.m4, 1))
Bad(e) ==
  CASE e.op = "pmf" -> BadPmf(e)
    [] e.op = "tail" -> BadTail(e)
    [] e.op = "thin" -> BadThin(e)
    [] e.op = "law" -> BadLaw(e)
    [] e.op = "gap" -> C("gaps-not-refused", ~e.ok /\ e.err = "RuntimeError")
    [] e.op = "none" -> C("empty-request", e.ok /\ e.n = 0)
    [] e.op = "refuse" -> C("not-refused", ~e.ok /\ e.err = "ValueError")
    [] e.op = "grid" -> BadGrid(e)
    [] e.op = "fit" -> BadFit(e)
    [] e.op = "predict" -> BadPredict(e)
    [] e.op = "caps" -> BadCaps(e)
    [] e.op = "scales" -> BadScales(e)
    [] e.op = "mix" -> BadMix(e)
    [] e.op = "poisson" -> BadPoisson(e)
    [] OTHER -> {"unknown-event"}
TInit == l = 1 /\ dist = <<>> /\ num = 0 /\ acc = <<>> /\ pos = 0
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
==============================================================================
