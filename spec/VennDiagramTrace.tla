-------------------------- MODULE VennDiagramTrace --------------------------
EXTENDS MCVennDiagram, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Toset(s) == {s[i] : i \in DOMAIN s}
SumSeq(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)
BagOf(s) == [x \in Toset(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]

(* the values of a function on the regions of A, as a sequence *)
SetToSeq2(fn, A) == LET q == SetToSeq(Regions(A)) IN [i \in DOMAIN q |-> fn[q[i]]]

(* e.rel: what was noised, one [v, n] per region, in no particular order       *)
Noised(e) == [i \in DOMAIN e.rel |-> Nonneg(e.rel[i].v + e.rel[i].n)]

(* judged on the diagram that came back: e.points has sub (publisher set),     *)
(* w (reach times total of the noised regions, exact), sp, imps                *)
PointOf(e, S) == CHOOSE i \in DOMAIN e.points : Toset(e.points[i].sub) = S
BadDiagram(e) ==
  LET A == Toset(e.active)
      subs == {Toset(e.points[i].sub) : i \in DOMAIN e.points}
  IN
  C("one-point-per-subset", subs = Regions(A) /\ Len(e.points) = Cardinality(subs))
  \cup C("spends-of-the-subset", \A i \in DOMAIN e.points : e.points[i].spends_ok)
  \cup C("impressions-of-the-subset", \A i \in DOMAIN e.points :
         e.points[i].imps = [j \in DOMAIN e.ds |->
              IF j \in Toset(e.points[i].sub) THEN ImpsBySpend(e.ds[j], e.sp[j]) ELSE 0])
  \cup C("universe", \A i \in DOMAIN e.points : e.points[i].universe = e.want_universe)
  \cup C("regions-noised-once-each", Len(e.rel) = Cardinality(Regions(A)))
  \cup (IF subs # Regions(A) THEN {}
        ELSE LET pts == [S \in Regions(A) |-> e.points[PointOf(e, S)].w]
                 total == SumSeq(Noised(e))
                 c == Nonneg(e.card)
                 ps == Population(e.ds, e.sp, A)
                 rec == [r \in Regions(A) |-> Recovered(A, pts, r)]
             IN
             C("monotone", \A S, T \in Regions(A) : S \subseteq T => pts[S] <= pts[T])
             \cup C("negative", \A S \in Regions(A) : pts[S] >= 0)
             \cup (IF total = 0
                   THEN C("all-zero", \A S \in Regions(A) : pts[S] = 0)
                   ELSE C("full-subset-is-cardinality", pts[A] = total * c)
                        \cup C("cardinality-noises-the-true-reach",
                               e.loc = -1 \/ e.loc = TrueReach(e.ds, e.sp, 1)[1])
                        \cup C("sum-of-intersecting-regions",
                               BagOf([i \in DOMAIN e.rel |-> Noised(e)[i] * c]) = BagOf(SetToSeq2(rec, A)))
                        \cup (IF c = 0 \/ \E i \in DOMAIN e.rel : e.rel[i].n # 0 THEN {}
                              ELSE C("sample-beyond-population", \A r \in Regions(A) : rec[r] <= ps[r] * c)
                                   \cup (IF e.singles = VSum(ps)
                                         THEN C("population-of-region", \A r \in Regions(A) : rec[r] = ps[r] * c)
                                         ELSE {})))
             \cup C("sample-size", SumSeq([i \in DOMAIN e.rel |-> e.rel[i].v]) = e.singles)
             \cup C("sample-non-negative", \A i \in DOMAIN e.rel : e.rel[i].v >= 0))

Bad(e) ==
  CASE e.op = "venn" /\ e.f # 1 -> C("frequency-cap-not-refused", ~e.ok) \cup C("released-although-refused", e.released = 0)
    [] e.op = "venn" /\ e.active = <<>> ->
         (IF e.ok THEN C("no-active-publisher-not-empty", e.npoints = 0) \cup C("released-although-empty", e.released = 0)
          ELSE {"no-active-publisher-refused:" \o e.err})
    [] e.op = "venn" /\ e.singles = 0 -> C("no-register-but-answer", ~e.ok)
    [] e.op = "venn" -> (IF ~e.ok THEN {"call-failed:" \o e.err} ELSE BadDiagram(e))
    [] e.op = "many" -> C("too-many-not-refused", e.n > 20 => e.refused)
                        \cup C("twenty-refused", e.n <= 20 => ~e.refused)
    [] OTHER -> {"unknown-event"}

TInit == /\ l = 1 /\ ds = <<>> /\ purchase = <<>> /\ IdleLog /\ phase = "request" /\ active = {} /\ pop = <<>>
         /\ sample = <<>> /\ noised = <<>> /\ card = 0 /\ points = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET bad == Bad(Trace[l]) IN
       (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED vvars
TSpec == TInit /\ [][TNext]_<<vvars, l>>
=============================================================================
