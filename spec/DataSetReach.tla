---------------------------- MODULE DataSetReach ----------------------------
(* C02.  True reach of a data set: a tuple of publisher logs (PublisherLog)   *)
(* over one population.  A purchase is one spend per publisher.               *)
EXTENDS PublisherLog

CONSTANTS NPubs, MaxFreq

VARIABLES ds,       \* sequence of logs
          purchase  \* sequence of spends, one per publisher

dvars == <<ds, purchase, vars>>

AllUsers(d) == UNION {UsersOf(d[i]) : i \in DOMAIN d}
DsMaxReach(d) == Cardinality(AllUsers(d))
DefaultUniverse(d) == 2 * DsMaxReach(d)

(* Adds up per-publisher count tables *)
Combine(tables) ==
  LET us == UNION {DOMAIN tables[i] : i \in DOMAIN tables} IN
  [u \in us |-> FoldFunctionOnSet(LAMBDA x, y : x + y, 0,
                                  [i \in DOMAIN tables |-> At(tables[i], u)],
                                  DOMAIN tables)]

KPlus(c, k) == Cardinality({u \in DOMAIN c : c[u] >= k})
KPlusSeq(c, f) == [k \in 1..f |-> KPlus(c, k)]

CountsFor(d, spends) == Combine([i \in DOMAIN d |-> CountsBySpend(d[i], spends[i])])
TrueReach(d, spends, f) == KPlusSeq(CountsFor(d, spends), f)
TrueImps(d, spends) == [i \in DOMAIN d |-> ImpsBySpend(d[i], spends[i])]

------------------------------------------------------------------------------
Logs == SeqOf(Event, MaxLen) \ {<<>>}
IdleLog == /\ caller = <<>> /\ given = <<>> /\ arr = <<>> /\ built = FALSE
           /\ answers = {} /\ ops = 0

DInit == /\ ds \in [1..NPubs -> Logs]
         /\ purchase = [i \in 1..NPubs |-> 0]
         /\ IdleLog

Raise(i) == /\ purchase[i] <= Max(Prices)
            /\ purchase' = [purchase EXCEPT ![i] = @ + 1]
            /\ UNCHANGED <<ds, vars>>

DNext == \E i \in 1..NPubs : Raise(i)
DSpec == DInit /\ [][DNext]_dvars

------------------------------------------------------------------------------
ReachWellFormed ==
  LET r == TrueReach(ds, purchase, MaxFreq) IN
  /\ \A k \in 1..(MaxFreq - 1) : r[k] >= r[k + 1]
  /\ r[1] <= DsMaxReach(ds)
  /\ r[1] <= FoldFunction(LAMBDA x, y : x + y, 0, TrueImps(ds, purchase))
  /\ \A f \in 1..MaxFreq : TrueReach(ds, purchase, f) = SubSeq(r, 1, f)
MonotoneInSpend ==
  [][\A k \in 1..MaxFreq :
       TrueReach(ds, purchase, MaxFreq)[k] <= TrueReach(ds, purchase', MaxFreq)[k]]_dvars
EverythingBought ==
  (\A i \in 1..NPubs : purchase[i] >= Max(Prices)) =>
      TrueReach(ds, purchase, MaxFreq)[1] = DsMaxReach(ds)
NothingBought ==
  (\A i \in 1..NPubs : purchase[i] = 0) => TrueReach(ds, purchase, MaxFreq)[1] = 0
==============================================================================
