------------------------ MODULE FrequencyDistribution ------------------------
(* C14.  Frequency distributions of single-publisher models.                  *)
(* A distribution is a sequence d of integer weights, d[f + 1] being the      *)
(* weight of frequency f.  Thinning shows each of a user's impressions with   *)
(* probability num/den, independently; it is the substitution                 *)
(* z -> (1 - p) + p z in the generating function, one factor per step.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS N,          \* largest frequency
          Mass,       \* weight of the whole population
          Den         \* inclusion probabilities k/Den

VARIABLES dist,       \* the inventory distribution
          num,        \* inclusion probability num/Den
          acc,        \* thinned distribution of the frequencies handled so far
          pos         \* frequencies above pos have been handled
vars == <<dist, num, acc, pos>>

SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
Scale(s, k) == [i \in DOMAIN s |-> s[i] * k]
MeanOf(s) == SumOf([i \in DOMAIN s |-> (i - 1) * s[i]])
Plus(s, k) == SumOf(SubSeq(s, k + 1, Len(s)))            \* weight of frequency k or more
Cap(s, k) == SubSeq(s, 1, k) \o <<Plus(s, k)>>           \* everything above k counted at k
Power(b, e) == IF e = 0 THEN 1 ELSE FoldLeft(LAMBDA x, y : x * b, 1, [i \in 1..e |-> 0])
Tail0(s) == SubSeq(s, 2, Len(s))

(* one factor of the substitution: multiply by ((den - num) + num z) / den *)
ThinStep(s, n, d) ==
  [i \in 1..(Len(s) + 1) |-> ((d - n) * At(s, i) + n * At(s, i - 1)) \div d]
AddAtZero(s, w) == [s EXCEPT ![1] = @ + w]
RECURSIVE HornerFrom(_, _, _, _, _)
HornerFrom(s, i, a, n, d) ==
  IF i = 0 THEN a ELSE HornerFrom(s, i - 1, AddAtZero(ThinStep(a, n, d), s[i]), n, d)
Thin(s, n, d) == HornerFrom(s, Len(s), <<0>>, n, d)
Trim(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s

(* ---- the inflated shifted Gamma-Poisson distribution --------------------- *)
(* leading probabilities a (scaled down to sum to at most one), then a tail   *)
(* proportional to the shifted Gamma-Poisson law with alpha = a4/4,           *)
(* beta = b4/4:  gp(n+1) / gp(n) = (n - 1 + alpha) / n * beta / (1 + beta)    *)
GPStep(x, y, n, a4, b4, tol) ==                          \* x = gp(n), y = gp(n + 1)
  LET lhs == y * n * (4 + b4) * 4
      rhs == x * (4 * (n - 1) + a4) * b4
      slack == tol * (n * (4 + b4) * 4 + (4 * (n - 1) + a4) * b4)
  IN lhs - rhs <= slack /\ rhs - lhs <= slack
(* ---- Poisson probabilities with mean m4/4, capped ------------------------ *)
PoissonStep(x, y, f, m4, tol) ==                         \* x = P(f), y = P(f + 1)
  LET lhs == y * (f + 1) * 4
      rhs == x * m4
      slack == tol * ((f + 1) * 4 + m4)
  IN lhs - rhs <= slack /\ rhs - lhs <= slack

(* ---- the thinning as a state machine ------------------------------------- *)
Unit == Power(Den, N)
Init ==
  /\ dist \in {d \in [1..(N + 1) -> 0..Mass] : SumOf(d) = Mass}
  /\ num \in 0..Den /\ acc = <<0>> /\ pos = N + 1
Step ==
  /\ pos > 0
  /\ acc' = AddAtZero(ThinStep(acc, num, Den), dist[pos] * Unit)
  /\ pos' = pos - 1
  /\ UNCHANGED <<dist, num>>
Next == Step
Spec == Init /\ [][Next]_vars

MassKept == SumOf(acc) = Unit * Plus(dist, pos)
MassNonNegative == \A i \in DOMAIN acc : acc[i] >= 0
Done == pos = 0
MeanScaled == Done => Den * MeanOf(acc) = num * Unit * MeanOf(dist)
Agrees == Done => acc = Thin(Scale(dist, Unit), num, Den)
NothingShown == Done /\ num = 0 => acc[1] = Unit * Mass
EverythingShown == Done /\ num = Den => Trim(acc) = Scale(dist, Unit)
(* showing more can only move users to higher frequencies *)
Dominated ==
  Done /\ num < Den => \A k \in 0..N :
     Plus(acc, k) <= Plus(Thin(Scale(dist, Unit), num + 1, Den), k)
(* capping commutes with counting k or more *)
CapKept == Done => \A c \in 1..N : \A k \in 0..c : Plus(Cap(acc, c), k) = Plus(acc, k)
==============================================================================
