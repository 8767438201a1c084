----------------------------- MODULE VennDiagram ----------------------------
(* C09.  The simulated Venn diagram over the publishers with non-zero spend.   *)
(* Regions are the non-empty sets of active publishers; users are put into the *)
(* region of exactly the publishers that reach them; a sample is drawn without *)
(* replacement; each region's sample is noised and clipped at zero; everything *)
(* is rescaled to a noised cardinality estimate (not below zero) and the reach *)
(* of a set of publishers is the sum over the regions that intersect it.       *)
EXTENDS DataSetReach

CONSTANTS Noise, Cards

VARIABLES phase, active, pop, sample, noised, card, points
vvars == <<phase, active, pop, sample, noised, card, points, dvars>>

VSum(fn) == FoldFunction(LAMBDA x, y : x + y, 0, fn)
SumOver(fn, S) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, fn, S)
Regions(A) == SUBSET A \ {{}}
Bought(d, sp, i) == UsersOf(SelectSeq(d[i], LAMBDA e : e.p <= sp[i]))
RegionOf(d, sp, A, u) == {i \in A : u \in Bought(d, sp, i)}
Population(d, sp, A) ==
  LET us == UNION {Bought(d, sp, i) : i \in A} IN
  [r \in Regions(A) |-> Cardinality({u \in us : RegionOf(d, sp, A, u) = r})]
Nonneg(x) == IF x < 0 THEN 0 ELSE x
Hitting(A, S) == {r \in Regions(A) : r \cap S # {}}
(* the reach of S times the sum of the noised regions: integers only *)
ScaledReach(w, A, S, c) == SumOver(w, Hitting(A, S)) * Nonneg(c)

------------------------------------------------------------------------------
(* in the model a publisher is active iff its spend is not 0; price 1 is the   *)
(* cheapest, so an active publisher may still reach nobody                     *)
VInit == /\ ds \in [1..NPubs -> Logs]
         /\ purchase \in [1..NPubs -> 0..(Max(Prices))]
         /\ phase = "request" /\ active = {} /\ pop = <<>> /\ sample = <<>> /\ noised = <<>>
         /\ card = 0 /\ points = <<>> /\ IdleLog
Form == /\ phase = "request"
        /\ active' = {i \in 1..NPubs : purchase[i] # 0}
        /\ IF active' = {} THEN phase' = "empty" /\ pop' = <<>>
           ELSE phase' = "formed" /\ pop' = Population(ds, purchase, active')
        /\ UNCHANGED <<sample, noised, card, points, dvars>>
Sample == /\ phase = "formed" /\ phase' = "sampled"
          /\ \E s \in [Regions(active) -> 0..Max({pop[r] : r \in Regions(active)})] :
               /\ \A r \in Regions(active) : s[r] <= pop[r]
               /\ VSum(s) > 0
               /\ sample' = s
          /\ UNCHANGED <<active, pop, noised, card, points, dvars>>
AddNoise == /\ phase = "sampled" /\ phase' = "noised"
            /\ \E n \in [Regions(active) -> Noise] :
                 noised' = [r \in Regions(active) |-> Nonneg(sample[r] + n[r])]
            /\ UNCHANGED <<active, pop, sample, card, points, dvars>>
Scale == /\ phase = "noised" /\ phase' = "done"
         /\ card' \in Cards
         /\ points' = [S \in Regions(active) |-> ScaledReach(noised, active, S, card')]
         /\ UNCHANGED <<active, pop, sample, noised, dvars>>
VNext == Form \/ Sample \/ AddNoise \/ Scale
VSpec == VInit /\ [][VNext]_vvars

(* the properties *)
Partition ==
  phase \notin {"request", "empty"} =>
    /\ VSum(pop) = TrueReach(ds, purchase, 1)[1]
    /\ \A i \in active : SumOver(pop, {r \in Regions(active) : i \in r}) = Cardinality(Bought(ds, purchase, i))
    /\ \A S \in Regions(active) :
         SumOver(pop, Hitting(active, S)) = Cardinality(UNION {Bought(ds, purchase, i) : i \in S})
SampleWithin == phase \in {"sampled", "noised", "done"} => \A r \in Regions(active) : sample[r] <= pop[r]
Monotone == phase = "done" => \A S, T \in Regions(active) : S \subseteq T => points[S] <= points[T]
FullIsCardinality ==
  phase = "done" /\ VSum(noised) > 0 => points[active] = VSum(noised) * Nonneg(card)
Subadditive ==
  phase = "done" => \A S, T \in Regions(active) : points[S \cup T] <= points[S] + points[T]
(* the regions can be recovered from the points, so the points determine them  *)
Below(A, pts, S) == (IF A = {} THEN 0 ELSE pts[A]) - (IF A \ S = {} THEN 0 ELSE pts[A \ S])
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
Recovered(A, pts, r) ==
  SumOver([S \in SUBSET r |-> Sign(Cardinality(r) - Cardinality(S)) * Below(A, pts, S)], SUBSET r)
Recoverable ==
  phase = "done" => \A r \in Regions(active) : Recovered(active, points, r) = noised[r] * Nonneg(card)
==============================================================================
