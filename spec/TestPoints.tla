----------------------------- MODULE TestPoints ------------------------------
(* C19.  Producing the test points of a data set.  A point gives each         *)
(* publisher a cell of its spend axis; the axis of the grid strategy has the  *)
(* interior fractions 1..g of 1/(g+1), the axis of the Latin hypercube one    *)
(* slice per point, that of the uniform strategy is coarse.  Random choices   *)
(* are a function of the position of the generator's own random source; the   *)
(* global random source moves too, on its own.                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Pubs,       \* numbers of publishers explored
          Grid,       \* grid sizes
          Wanted,     \* requested numbers of random points
          PerPub,     \* minimum per publisher
          Floor, Ceil,\* bounds of the Latin hypercube count
          Positions   \* positions of the random sources

VARIABLES npub, strategy, size, points, own, glob, memo
vars == <<npub, strategy, size, points, own, glob, memo>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* ---- the number of points ------------------------------------------------ *)
RandomCount(n, npubs, perpub) == Max2(n, npubs * perpub)
LatinCount(n, npubs, perpub, lo, hi) == Min2(Max2(RandomCount(n, npubs, perpub), lo), hi)
GridCount(g, p) == IF p = 0 THEN 1 ELSE FoldLeft(LAMBDA x, y : x * g, 1, [i \in 1..p |-> 0])
(* ---- what a finished list of points must satisfy ------------------------- *)
IsGrid(ps, g, p) ==
  /\ Len(ps) = GridCount(g, p)
  /\ \A i \in DOMAIN ps : Len(ps[i]) = p /\ \A j \in 1..p : ps[i][j] \in 1..g
  /\ Cardinality(ToSet(ps)) = Len(ps)
IsLatin(ps, n, p) ==
  /\ Len(ps) = n
  /\ \A i \in DOMAIN ps : Len(ps[i]) = p
  /\ \A j \in 1..p : {ps[i][j] : i \in DOMAIN ps} = 1..n
(* every quarter of each axis and every quadrant of each pair of axes is hit *)
Spread(ps, p) ==                    \* cells 1..4
  /\ \A j \in 1..p : {ps[i][j] : i \in DOMAIN ps} = 1..4
  /\ \A j, k \in 1..p : j < k =>
       Cardinality({<<ps[i][j] \div 3, ps[i][k] \div 3>> : i \in DOMAIN ps}) = 4

(* ---- producing them ------------------------------------------------------ *)
Count ==
  CASE strategy = "grid" -> GridCount(size, npub)
    [] strategy = "uniform" -> RandomCount(size, npub, PerPub)
    [] strategy = "latin" -> LatinCount(size, npub, PerPub, Floor, Ceil)
Cells == CASE strategy = "grid" -> size [] strategy = "uniform" -> 4 [] strategy = "latin" -> Count
Init ==
  /\ npub \in Pubs /\ strategy \in {"grid", "uniform", "latin"}
  /\ size \in (IF strategy = "grid" THEN Grid ELSE Wanted)
  /\ points = <<>> /\ own \in Positions /\ glob \in Positions /\ memo = <<>>
(* the next point of the odometer *)
RECURSIVE Digits(_, _, _)
Digits(k, g, p) == IF p = 0 THEN <<>> ELSE Append(Digits(k \div g, g, p - 1), 1 + (k % g))
(* a deterministic stand-in for the random choice at a position of the source *)
Choice(pos, k, j, n) == 1 + ((7 * pos + 5 * k + 3 * j * (pos + 1)) % n)
Free(j) == (1..Cells) \ {points[i][j] : i \in DOMAIN points}
Pick(S, c) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = (c - 1) % Cardinality(S)
Place ==
  /\ Len(points) < Count
  /\ points' = Append(points,
       CASE strategy = "grid" -> Digits(Len(points), size, npub)
         [] strategy = "uniform" -> [j \in 1..npub |-> Choice(own, Len(points), j, 4)]
         [] strategy = "latin" -> [j \in 1..npub |-> Pick(Free(j), Choice(own, Len(points), j, Cells))])
  /\ UNCHANGED <<npub, strategy, size, own, glob, memo>>
OtherDraw == glob' \in Positions /\ glob' # glob /\ UNCHANGED <<npub, strategy, size, points, own, memo>>
Finish ==
  /\ Len(points) = Count /\ Len(memo) < 2
  /\ memo' = Append(memo, [own |-> own, points |-> points])
  /\ points' = <<>> /\ own' \in Positions
  /\ UNCHANGED <<npub, strategy, size, glob>>
Next == Place \/ OtherDraw \/ Finish
Spec == Init /\ [][Next]_vars

InBox == \A i \in DOMAIN points : Len(points[i]) = npub /\ \A j \in 1..npub : points[i][j] \in 1..Cells
NotTooMany == Len(points) <= Count
Promised == strategy # "grid" => Count >= Min2(npub * PerPub, Ceil)
DoneGrid == strategy = "grid" /\ Len(points) = Count => IsGrid(points, size, npub)
DoneLatin == strategy = "latin" /\ Len(points) = Count => IsLatin(points, Count, npub)
Reproducible == \A a, b \in DOMAIN memo : memo[a].own = memo[b].own => memo[a].points = memo[b].points
==============================================================================
