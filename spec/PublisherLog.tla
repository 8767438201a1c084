---------------------------- MODULE PublisherLog ----------------------------
(* C01.  A publisher's impression log.                                        *)
(*                                                                            *)
(* The caller hands over a list of events [u |-> user, p |-> price].  The log *)
(* keeps its own price-ordered arrangement of them, fixed when it is built:   *)
(* events with equal prices may come in any order, but the order is chosen    *)
(* once.  Queries read prefixes of the arrangement and change nothing.  The   *)
(* caller may change its own list afterwards.                                 *)
(* A spend is an integer too: a spend s buys the events with p <= s.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANTS Users, Prices, MaxLen, MaxOps

VARIABLES caller,   \* the caller's list
          given,    \* the list as it was when the log was built
          arr,      \* the log's arrangement; <<>> before it is built
          built,    \* BOOLEAN
          answers,  \* what has been answered: set of [q, arg, val]
          ops       \* number of operations done (bounds the model)

vars == <<caller, given, arr, built, answers, ops>>

Event == [u : Users, p : Prices]

------------------------------------------------------------------------------
(* Pure definitions, also used by the trace specification *)

UsersOf(log) == {log[i].u : i \in DOMAIN log}
PricesOf(log) == {log[i].p : i \in DOMAIN log}

PriceOrdered(s) == \A i, j \in DOMAIN s : i < j => s[i].p <= s[j].p

Occ(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})

SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A e \in Range(s) \cup Range(t) : Occ(s, e) = Occ(t, e)

(* How often each user occurs among the events selected by the index set I *)
CountsOver(s, I) ==
  [u \in {s[i].u : i \in I} |-> Cardinality({i \in I : s[i].u = u})]

(* The purchase for a spend: all events priced at or below it *)
BoughtBySpend(s, x) == {i \in DOMAIN s : s[i].p <= x}
CountsBySpend(s, x) == CountsOver(s, BoughtBySpend(s, x))
ImpsBySpend(s, x) == Cardinality(BoughtBySpend(s, x))

(* The purchase of n impressions: the first n events of the arrangement *)
Clip(s, n) == IF n > Len(s) THEN Len(s) ELSE n
CountsByImps(a, n) == CountsOver(a, 1..Clip(a, n))
SpendByImps(a, n) == IF n = 0 THEN 0 ELSE a[Clip(a, n)].p

TotalOf(f) == FoldFunction(LAMBDA x, y : x + y, 0, f)
At(f, u) == IF u \in DOMAIN f THEN f[u] ELSE 0
LeqCounts(f, g) == \A u \in DOMAIN f : f[u] <= At(g, u)

MaxSpend(s) == Max(PricesOf(s))
MaxReach(s) == Cardinality(UsersOf(s))

(* The price of the n-th cheapest event, whatever the arrangement of ties *)
NthPrice(s, n) ==
  CHOOSE x \in PricesOf(s) :
     /\ Cardinality({i \in DOMAIN s : s[i].p <= x}) >= n
     /\ Cardinality({i \in DOMAIN s : s[i].p < x}) < n

(* Which count tables a purchase of n >= 1 impressions may give, over all     *)
(* arrangements: everything cheaper than the n-th price, nothing dearer.      *)
AllowedByImps(s, n, c) ==
  LET k == Clip(s, n) IN
  IF k = 0 THEN DOMAIN c = {}
  ELSE LET x  == NthPrice(s, k)
           lo == CountsOver(s, {i \in DOMAIN s : s[i].p < x})
           hi == CountsBySpend(s, x)
       IN /\ TotalOf(c) = k
          /\ \A u \in DOMAIN c : c[u] > 0
          /\ LeqCounts(lo, c)
          /\ LeqCounts(c, hi)

Arrangements(s) ==
  {[i \in DOMAIN s |-> s[f[i]]] : f \in Permutations(DOMAIN s)}

------------------------------------------------------------------------------
Init == /\ caller \in SeqOf(Event, MaxLen) \ {<<>>}
        /\ given = <<>> /\ arr = <<>> /\ built = FALSE /\ answers = {} /\ ops = 0

Build == /\ ~built
         /\ built' = TRUE
         /\ given' = caller
         /\ arr' \in {a \in Arrangements(caller) : PriceOrdered(a)}
         /\ UNCHANGED <<caller, answers, ops>>

Step == built /\ ops < MaxOps /\ ops' = ops + 1

QueryBySpend(x) == /\ Step
                   /\ answers' = answers \cup
                        {[q |-> "spend", arg |-> x, val |-> CountsBySpend(arr, x)]}
                   /\ UNCHANGED <<caller, given, arr, built>>
QueryByImps(n) == /\ Step
                  /\ answers' = answers \cup
                        {[q |-> "imps", arg |-> n, val |-> CountsByImps(arr, n)]}
                  /\ UNCHANGED <<caller, given, arr, built>>
(* The caller reuses its list for something else *)
MutateCaller == /\ Step /\ caller' = <<>>
                /\ UNCHANGED <<given, arr, built, answers>>

Next == \/ Build
        \/ \E x \in 0..(Max(Prices) + 1) : QueryBySpend(x)
        \/ \E n \in 0..(MaxLen + 1) : QueryByImps(n)
        \/ MutateCaller

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Invariants of the design *)

ArrangedOnce == built => SameBag(arr, given) /\ PriceOrdered(arr)
(* A spend buys a prefix; the queries agree with each other *)
SpendIsPrefix ==
  built => \A x \in 0..(Max(Prices) + 1) :
      /\ BoughtBySpend(arr, x) = 1..ImpsBySpend(arr, x)
      /\ CountsBySpend(arr, x) = CountsByImps(arr, ImpsBySpend(arr, x))
      /\ CountsBySpend(given, x) = CountsBySpend(arr, x)
      /\ TotalOf(CountsBySpend(arr, x)) = ImpsBySpend(arr, x)
ImpsAddUp ==
  built => \A n \in 0..(MaxLen + 1) :
      /\ TotalOf(CountsByImps(arr, n)) = Clip(arr, n)
      /\ AllowedByImps(given, n, CountsByImps(arr, n))
      /\ (n > 0 => /\ SpendByImps(arr, n) = NthPrice(given, Clip(given, n))
                   /\ ImpsBySpend(arr, SpendByImps(arr, n)) >= Clip(arr, n))
Totals ==
  built => /\ ImpsBySpend(arr, MaxSpend(given)) = Len(given)
           /\ Cardinality(DOMAIN CountsBySpend(arr, MaxSpend(given))) = MaxReach(given)
(* The same question always gets the same answer, and purchases are nested *)
Consistent ==
  \A a, b \in answers :
     /\ (a.q = b.q /\ a.arg = b.arg) => a.val = b.val
     /\ (a.q = b.q /\ a.arg <= b.arg) => LeqCounts(a.val, b.val)
LogIsFixed == [][built => arr' = arr /\ given' = given]_vars
==============================================================================
