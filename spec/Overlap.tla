------------------------------- MODULE Overlap -------------------------------
(* C04.  Turning single-publisher logs into a data set with a prescribed       *)
(* overlap: for each publisher a set of ids, as large as its audience, is       *)
(* generated, and its users are renamed one-to-one onto these ids.              *)
EXTENDS DataSetReach

CONSTANT Ids

VARIABLES ids,   \* publisher -> set of ids generated for it
          out    \* the relabelled logs; <<>> before
ovars == <<ids, out, dvars>>

Rename(log, f) == [i \in DOMAIN log |-> [u |-> f[log[i].u], p |-> log[i].p]]
Bijections(A, B) ==
  {f \in [A -> B] : \A b \in B : \E a \in A : f[a] = b}

(* The pattern of impressions of one user *)
Signature(log, u) == [p \in PricesOf(log) |-> Cardinality({i \in DOMAIN log : log[i].u = u /\ log[i].p = p})]
(* o is log with its users renamed one-to-one onto I: same patterns, same      *)
(* number of users with each pattern, and I as the set of names                 *)
IsRelabelling(log, o, I) ==
  /\ Len(o) = Len(log)
  /\ PricesOf(o) = PricesOf(log)
  /\ UsersOf(o) = I
  /\ LET sigs == {Signature(log, u) : u \in UsersOf(log)} IN
     /\ {Signature(o, u) : u \in I} = sigs
     /\ \A s \in sigs : Cardinality({u \in UsersOf(log) : Signature(log, u) = s})
                      = Cardinality({u \in I : Signature(o, u) = s})

OInit == DInit /\ out = <<>>
         /\ ids \in [1..NPubs -> SUBSET Ids]
         /\ \A i \in 1..NPubs : Cardinality(ids[i]) = MaxReach(ds[i])
Relabel == /\ out = <<>>
           /\ \E fs \in [1..NPubs -> UNION {Bijections(UsersOf(ds[i]), ids[i]) : i \in 1..NPubs}] :
                 /\ \A i \in 1..NPubs : fs[i] \in Bijections(UsersOf(ds[i]), ids[i])
                 /\ out' = [i \in 1..NPubs |-> Rename(ds[i], fs[i])]
           /\ UNCHANGED <<ids, dvars>>
ONext == Relabel
OSpec == OInit /\ [][ONext]_ovars

------------------------------------------------------------------------------
Done == out # <<>>
Relabelled == Done => \A i \in 1..NPubs : IsRelabelling(ds[i], out[i], ids[i])
(* every single-publisher curve, at every frequency, is unchanged *)
CurvesPreserved ==
  Done => \A i \in 1..NPubs, x \in 0..(Max(Prices) + 1) :
     /\ ImpsBySpend(out[i], x) = ImpsBySpend(ds[i], x)
     /\ KPlusSeq(CountsBySpend(out[i], x), MaxFreq) = KPlusSeq(CountsBySpend(ds[i], x), MaxFreq)
(* who coincides is dictated by the generator *)
OverlapAsGenerated ==
  Done => \A S \in SUBSET (1..NPubs) :
     UNION {UsersOf(out[i]) : i \in S} = UNION {ids[i] : i \in S}
(* renaming is the only freedom: no two people are merged or split *)
TotalImps == Done => \A i \in 1..NPubs : Len(out[i]) = Len(ds[i])
==============================================================================
