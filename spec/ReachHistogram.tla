--------------------------- MODULE ReachHistogram ---------------------------
(* C06.  Representations of "how many people were reached how often": a table *)
(* of per-user counts, exact frequencies with a final open bucket, k+ reaches *)
(* and the histogram that includes the people not reached.                    *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

CONSTANTS People, MaxCount, MaxCap

VARIABLE counts     \* person -> number of impressions seen (0 = not reached)

Sum(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)

(* From a table with positive counts, at cap F: bucket k < F holds the people  *)
(* counted exactly k times, bucket F those counted F or more times             *)
Freqs(c, F) ==
  [k \in 1..F |-> IF k < F THEN Cardinality({u \in DOMAIN c : c[u] = k})
                           ELSE Cardinality({u \in DOMAIN c : c[u] >= F})]
KPluses(c, F) == [k \in 1..F |-> Cardinality({u \in DOMAIN c : c[u] >= k})]

(* Conversions that only look at the other representation *)
SuffixSums(f) == [k \in DOMAIN f |-> Sum([j \in 1..(Len(f) - k + 1) |-> f[j + k - 1]])]
ExactFreqs(r) == [k \in 1..(Len(r) - 1) |-> r[k] - r[k + 1]]
WithKPlusBucket(r) == ExactFreqs(r) \o <<r[Len(r)]>>
ZeroIncluded(r, U) == <<U - r[1]>> \o WithKPlusBucket(r)

------------------------------------------------------------------------------
Init == counts = [p \in People |-> 0]
See(p) == counts[p] < MaxCount /\ counts' = [counts EXCEPT ![p] = @ + 1]
Next == \E p \in People : See(p)
Spec == Init /\ [][Next]_counts

Reached == {p \in People : counts[p] > 0}
Tab == [p \in Reached |-> counts[p]]
U == Cardinality(People)

RoundTrip ==
  \A F \in 1..MaxCap :
    /\ SuffixSums(Freqs(Tab, F)) = KPluses(Tab, F)
    /\ WithKPlusBucket(KPluses(Tab, F)) = Freqs(Tab, F)
    /\ Sum(Freqs(Tab, F)) = Cardinality(Reached)
    /\ Sum(ZeroIncluded(KPluses(Tab, F), U)) = U
    /\ ZeroIncluded(KPluses(Tab, F), U)[1] = Cardinality(People \ Reached)
CapsAgree ==
  \A F \in 1..(MaxCap - 1) :
     KPluses(Tab, F) = SubSeq(KPluses(Tab, F + 1), 1, F)
NonIncreasing ==
  \A k \in 1..(MaxCap - 1) : KPluses(Tab, MaxCap)[k] >= KPluses(Tab, MaxCap)[k + 1]
GrowsByOne ==
  [][\A F \in 1..MaxCap : \A k \in 1..F :
        [p \in {x \in People : counts'[x] > 0} |-> counts'[p]] # Tab =>
           KPluses(Tab, F)[k] <=
              KPluses([p \in {x \in People : counts'[x] > 0} |-> counts'[p]], F)[k]]_counts
==============================================================================
