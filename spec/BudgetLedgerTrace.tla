------------------------- MODULE BudgetLedgerTrace --------------------------
(* Every event carries what was granted (b, in units; num/den the split), what *)
(* was released (rel: [eps, role, n]) and what was logged (log: [eps, del]),   *)
(* and the consumption reported afterwards (total).                            *)
EXTENDS MCBudgetLedger, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
C(name, ok) == IF ok THEN {} ELSE {name}
Toset(s) == {s[i] : i \in DOMAIN s}
BagOf(s) == [x \in Toset(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Eps(s) == [i \in DOMAIN s |-> s[i].eps]

SumN(s, role) == FoldFunction(LAMBDA x, y : x + y, 0,
                   [i \in DOMAIN s |-> IF s[i].role = role THEN s[i].n ELSE 0])
Logged(e) == [i \in DOMAIN e.log |-> B(e.log[i].eps, e.log[i].del)]

(* one query's releases and log entries *)
BadQuery(e) ==
  LET want == Parts(e.b, e.num, e.den) IN
  C("applied-noise", BagOf(Eps(e.rel)) = BagOf(Eps(want)))
  \cup C("applied-noise-roles", \A i \in DOMAIN e.rel :
            e.rel[i].role = "main" => e.rel[i].eps = want[1].eps)
  \cup C("applied-noise-roles", \A i \in DOMAIN e.rel :
            e.rel[i].role = "rest" => e.rel[i].eps = want[2].eps)
  \cup C("applied-delta", \A i \in DOMAIN e.rel : e.rel[i].del = -1 \/
            \E w \in Toset(want) : w.eps = e.rel[i].eps /\ w.del = e.rel[i].del)
  \cup C("logged-releases", BagOf(Logged(e)) = BagOf(want))

(* every region of a diagram is noised, and noised once; so is its cardinality *)
BadDiagram(e) ==
  C("regions-noised", SumN(e.rel, "main") = 2^e.active - 1)
  \cup C("cardinality-noised", SumN(e.rel, "rest") = 1)

(* a fit: e.asked lists the subsets of publishers asked about.  Publishers that *)
(* bought nothing (e.mute) cannot be seen in a sketch and are left out.          *)
FitAsk(e) == [i \in 1..Len(FitPlan(e.p)) |-> SetToSeq(FitPlan(e.p)[i] \ Toset(e.mute))]
BadFit(e) ==
  LET share == FitShare(e.b, e.p)
      n == Len(FitPlan(e.p))
      one == Parts(share, 1, 2)
      all == [i \in 1..(2 * n) |-> one[((i - 1) % 2) + 1]]
  IN
  (IF e.ok
   THEN C("logged-shares", BagOf(Logged(e)) = BagOf(all))
        \cup C("applied-shares", BagOf(Eps(e.rel)) = BagOf(Eps(all)))
        \cup C("questions", /\ Len(e.asked) = n
                            /\ {Toset(e.asked[i]) : i \in DOMAIN e.asked} = {Toset(FitAsk(e)[i]) : i \in 1..n})
   ELSE {})
  \cup C("fit-overspends", LeqB(SumB(Logged(e)), e.b))
  \cup C("unlogged-noise", BagOf(Eps(e.rel)) = BagOf(Eps(Logged(e))))

Bad(e) ==
  (CASE e.op = "new" -> {}
    [] e.op = "reach" -> (IF e.ok THEN BadQuery(e) ELSE {"call-failed:" \o e.err})
    [] e.op = "venn" ->
         (IF e.active = 0 THEN C("released-without-audience", e.rel = <<>> /\ e.log = <<>>)
          ELSE IF ~e.ok THEN {"call-failed:" \o e.err} ELSE BadQuery(e) \cup BadDiagram(e))
    [] e.op = "refused" -> C("not-refused", ~e.ok) \cup C("refused-but-spent", e.rel = <<>> /\ e.log = <<>>)
    [] e.op = "true" -> (IF e.ok THEN C("truth-touches-the-log", e.rel = <<>> /\ e.log = <<>>)
                         ELSE {"call-failed:" \o e.err})
    [] e.op = "fit" -> BadFit(e)
    [] e.op = "single" ->
         (IF e.p # 1 THEN C("not-refused", ~e.ok) \cup C("refused-but-spent", e.rel = <<>> /\ e.log = <<>>)
          ELSE C("single-fit-spends-its-budget", BagOf(Logged(e)) = BagOf(Parts(e.b, 1, 2)))
               \cup C("applied-noise", BagOf(Eps(e.rel)) = BagOf(Eps(Parts(e.b, 1, 2)))))
    [] OTHER -> {"unknown-event"})
  \cup C("consumption-reported",
         (e.op # "new") => B(e.total.eps, e.total.del) = Plus(SumB(ledger), SumB(Logged(e))))
  \cup C("log-rewritten", (e.op # "new") => e.kept)

TInit == l = 1 /\ Init
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         bad == Bad(e) IN
       /\ (bad # {} => PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad)))
       /\ ledger' = IF e.op = "new" THEN <<>> ELSE ledger \o Logged(e)
  /\ l' = l + 1
  /\ (l = Len(Trace) => PrintT("DONE " \o ToString(l)))
  /\ UNCHANGED <<released, grants, plan, fit, asked>>
TSpec == TInit /\ [][TNext]_<<bvars, l>>
=============================================================================
