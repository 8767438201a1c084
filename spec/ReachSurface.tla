---------------------------- MODULE ReachSurface ----------------------------
(* C13.  Union reach of several publishers from their own reaches.            *)
(* Pairwise model: a symmetric matrix a (in units 1/Q) with zero diagonal and *)
(* row sums at most one; union = sum r_i - sum_{i<j} a_ij r_i r_j/max(m_i,m_j) *)
(* Mixture model: rows of shares summing to one over clusters;                *)
(* union = N sum_j (1 - prod_i (1 - a_ij r_i / N)), N twice the largest m_i.  *)
(* Everything is exact: unions are integers in units 1/PScale, 1/MScale.      *)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, TLC

CONSTANTS P,      \* number of publishers
          Top,    \* maximum reaches lie in 1..Top; Top <= 3
          Q,      \* parameters in multiples of 1/Q
          Clusters

VARIABLES m, r, a, kind
vars == <<m, r, a, kind>>
Pubs == 1..P
Largest(f) == Max({f[i] : i \in DOMAIN f})
Sum(f) == FoldFunction(LAMBDA x, y : x + y, 0, f)
Lcm == 6
PScale == Q * Lcm
Pairs(n) == {pr \in (1..n) \X (1..n) : pr[1] < pr[2]}
PairTerm(aa, rr, mm, pr) ==
  (aa[pr[1]][pr[2]] * rr[pr[1]] * rr[pr[2]] * Lcm) \div
     (IF mm[pr[1]] > mm[pr[2]] THEN mm[pr[1]] ELSE mm[pr[2]])
PairUnion(aa, rr, mm) ==
  PScale * Sum(rr) - FoldFunction(LAMBDA x, y : x + y, 0, [pr \in Pairs(P) |-> PairTerm(aa, rr, mm, pr)])

N == 2 * Largest(m)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Unreached(aa, rr, n, j) == FoldFunction(LAMBDA x, y : x * y, 1, [i \in Pubs |-> Q * n - aa[i][j] * rr[i]])
(* in units N / (Q N)^P *)
MixUnion(aa, rr, n) ==
  FoldFunction(LAMBDA x, y : x + y, 0,
               [j \in 1..Clusters |-> Power(Q * n, P) - Unreached(aa, rr, n, j)])

Union(aa, rr, mm) == IF kind = "pairwise" THEN PairUnion(aa, rr, mm) ELSE MixUnion(aa, rr, N)
UScale == IF kind = "pairwise" THEN PScale ELSE Power(Q * N, P) \div N

------------------------------------------------------------------------------
(* Constraint sets, on observed parameters in units of 1/one with tolerance t *)
PairFeasible(aa, one, t) ==
  /\ \A i, j \in DOMAIN aa : aa[i][j] >= -t
  /\ \A i \in DOMAIN aa : aa[i][i] <= t
  /\ \A i, j \in DOMAIN aa : aa[i][j] - aa[j][i] \in -t..t
  /\ \A i \in DOMAIN aa : Sum(aa[i]) <= one + t
MixFeasible(aa, one, t) ==
  /\ \A i \in DOMAIN aa : \A j \in DOMAIN aa[i] : aa[i][j] >= -t
  /\ \A i \in DOMAIN aa : Sum(aa[i]) - one \in -t..t

(* Clauses on a prediction *)
Bounded(u, rr, t) == u >= Largest(rr) - t /\ u <= Sum(rr) + t

PairParams == {f \in [Pubs -> [Pubs -> 0..Q]] : PairFeasible(f, Q, 0)}
MixParams == {f \in [Pubs -> [1..Clusters -> 0..Q]] : MixFeasible(f, Q, 0)}
Init ==
  /\ m \in [Pubs -> 1..Top] /\ r = [i \in Pubs |-> 0]
  /\ \/ kind = "pairwise" /\ a \in PairParams
     \/ kind = "mixture" /\ a \in MixParams
Raise(i) == r[i] < m[i] /\ r' = [r EXCEPT ![i] = @ + 1] /\ UNCHANGED <<m, a, kind>>
Next == \E i \in Pubs : Raise(i)
Spec == Init /\ [][Next]_vars

UnionBounded == Bounded(Union(a, r, m), [i \in Pubs |-> r[i] * UScale], 0)
AloneIsOwn == \A i \in Pubs : (\A j \in Pubs \ {i} : r[j] = 0) => Union(a, r, m) = r[i] * UScale
Monotone == [][Union(a, r, m) <= Union(a, r', m)]_vars
==============================================================================
