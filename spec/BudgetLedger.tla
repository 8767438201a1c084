---------------------------- MODULE BudgetLedger ----------------------------
(* C08.  Privacy budget granted, spent and logged.                             *)
(* Budgets are pairs [eps, del] in integer units.  A query is granted a budget *)
(* and a split num/den; it makes two releases, one with the split's share and  *)
(* one with the rest, and logs each.  A fit cuts its budget into 2p+1 equal    *)
(* shares and asks one query over everything, one per publisher and, with      *)
(* three or more publishers, one per leave-one-out subset.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANTS MaxPubs, Shares, Splits, MaxQueries

VARIABLES ledger,    \* sequence of logged budgets
          released,  \* sequence of budgets actually used to make noise
          grants,    \* budgets granted so far to direct queries
          plan,      \* queries a fit in progress still has to make
          fit,       \* [p, eps, del] of the fit, or the empty function
          asked      \* the subsets of publishers the fit has asked about
bvars == <<ledger, released, grants, plan, fit, asked>>

B(e, d) == [eps |-> e, del |-> d]
Zero == B(0, 0)
Plus(a, b) == B(a.eps + b.eps, a.del + b.del)
SumB(s) == FoldSeq(Plus, Zero, s)
LeqB(a, b) == a.eps <= b.eps /\ a.del <= b.del
(* the two parts of a budget; in the model all divisions are exact *)
Part(b, num, den) == B((b.eps * num) \div den, (b.del * num) \div den)
Parts(b, num, den) == <<Part(b, num, den), Part(b, den - num, den)>>

(* subsets of publishers asked about by a fit over p publishers *)
FitPlan(p) == <<1..p>> \o [i \in 1..p |-> {i}]
              \o (IF p > 2 THEN [i \in 1..p |-> (1..p) \ {i}] ELSE <<>>)
FitShare(b, p) == B(b.eps \div (2 * p + 1), b.del \div (2 * p + 1))
FitTotal(b, p) == LET n == Len(FitPlan(p)) s == FitShare(b, p) IN B(n * s.eps, n * s.del)

------------------------------------------------------------------------------
Idle == plan = <<>>
Init == /\ ledger = <<>> /\ released = <<>> /\ grants = <<>> /\ plan = <<>> /\ fit = <<>> /\ asked = <<>>

Releases(b, num, den) ==
  /\ released' = released \o Parts(b, num, den)
  /\ ledger' = ledger \o Parts(b, num, den)

Query(b, num, den) == /\ Idle /\ Len(grants) < MaxQueries
                      /\ Releases(b, num, den)
                      /\ grants' = Append(grants, b)
                      /\ UNCHANGED <<plan, fit, asked>>
(* refused, nothing to release, or a question about the truth *)
Free == Idle /\ UNCHANGED bvars
BeginFit(p, k) ==
  /\ Idle /\ Len(grants) < MaxQueries
  /\ LET b == B(2 * (2 * p + 1) * k, 4 * (2 * p + 1) * k) IN
     /\ fit' = [p |-> p, b |-> b]
     /\ grants' = Append(grants, b)
  /\ plan' = FitPlan(p) /\ asked' = <<>>
  /\ UNCHANGED <<ledger, released>>
StepFit == /\ plan # <<>>
           /\ Releases(FitShare(fit.b, fit.p), 1, 2)
           /\ asked' = Append(asked, Head(plan))
           /\ plan' = Tail(plan)
           /\ UNCHANGED <<grants, fit>>
(* the single-publisher strategy asks one question with the whole budget *)
SingleFit(k) == Query(B(2 * k, 4 * k), 1, 2)
(* a fit may fail at any point; what was spent stays spent *)
FailFit == plan # <<>> /\ plan' = <<>> /\ UNCHANGED <<ledger, released, grants, fit, asked>>

Next == \/ \E k \in Shares, s \in Splits : Query(B(s[2] * k, s[2] * 3 * k), s[1], s[2])
        \/ \E p \in 1..MaxPubs, k \in Shares : BeginFit(p, k)
        \/ \E k \in Shares : SingleFit(k)
        \/ StepFit \/ FailFit \/ Free
Spec == Init /\ [][Next]_bvars

EverythingLogged == ledger = released
NeverOverspent == LeqB(SumB(ledger), SumB(grants))
QueriesSpendAll == (fit = <<>>) => SumB(ledger) = SumB(grants)
FitWithin == \A p \in 1..12 : LeqB(FitTotal(B(100 * (2 * p + 1), 7 * (2 * p + 1)), p), B(100 * (2 * p + 1), 7 * (2 * p + 1)))
NothingUnlogged == [][Len(ledger') - Len(ledger) = Len(released') - Len(released) /\ Len(ledger') >= Len(ledger)]_bvars
==============================================================================
