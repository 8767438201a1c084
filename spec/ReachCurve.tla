----------------------------- MODULE ReachCurve -----------------------------
(* C11.  What a single-publisher reach curve is.  A curve maps a number of    *)
(* impressions to k+ reaches.  The reference curves are those of real         *)
(* audiences (users shown impressions one at a time) and the closed-form      *)
(* exponential (Goerg) curve in fixed-point arithmetic; a fitted curve is     *)
(* judged by the same clauses on an observed table, up to a tolerance.        *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

CONSTANTS Users, MaxShown, MaxK, MaxTrain

VARIABLES shown,   \* sequence of users, in the order they are shown impressions
          train    \* <<impressions, reach>> of a training point

vars == <<shown, train>>
Abs(x) == IF x < 0 THEN -x ELSE x
Least(a, b) == IF a < b THEN a ELSE b
SumSeq(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)

------------------------------------------------------------------------------
(* The curve of a real audience *)
TimesSeen(s, i, u) == Cardinality({j \in 1..Least(i, Len(s)) : s[j] = u})
Audience(s) == {s[j] : j \in DOMAIN s}
TrueKPlus(s, i, k) == Cardinality({u \in Audience(s) : TimesSeen(s, i, u) >= k})
TrueRow(s, i, f) == [k \in 1..f |-> TrueKPlus(s, i, k)]

------------------------------------------------------------------------------
(* The exponential curve through impressions I, reach R (0 <= R < I), in       *)
(* thousandths: rho x^k with rho = I R/(I-R), x = i/(i+rho).  Each division    *)
(* loses less than one thousandth.                                             *)
RhoMilli(I, R) == (1000 * I * R) \div (I - R)
RECURSIVE GoergMilli(_, _, _, _)
GoergMilli(I, R, i, k) ==
  IF R = 0 \/ i = 0 THEN 0
  ELSE LET num == i * (I - R)
           den == i * (I - R) + I * R
       IN IF k = 0 THEN RhoMilli(I, R)
          ELSE (GoergMilli(I, R, i, k - 1) * num) \div den

------------------------------------------------------------------------------
(* Clauses on a table: imps is increasing, row[j] are the k+ reaches at        *)
(* imps[j], top the stated maximum reach, all in one unit; t a tolerance.      *)
NonNegative(row, t) == \A j \in DOMAIN row : \A k \in DOMAIN row[j] : row[j][k] >= -t
FallsWithK(row, t) ==
  \A j \in DOMAIN row : \A k \in 1..(Len(row[j]) - 1) : row[j][k] >= row[j][k + 1] - t
RisesWithImps(row, t) ==
  \A j \in 1..(Len(row) - 1) : \A k \in DOMAIN row[j] : row[j][k] <= row[j + 1][k] + t
ZeroAtZero(imps, row, t) ==
  \A j \in DOMAIN imps : imps[j] = 0 => \A k \in DOMAIN row[j] : Abs(row[j][k]) <= t
BelowTop(row, top, t) == \A j \in DOMAIN row : \A k \in DOMAIN row[j] : row[j][k] <= top + t
WithinImpressions(imps, row, t) ==
  \A j \in DOMAIN row : \A k \in DOMAIN row[j] : k * row[j][k] <= imps[j] + k * t
(* total[j] is the sum over all k of the k+ reaches; inv the inventory (-1: no limit) *)
AddsUp(imps, total, inv, t) ==
  \A j \in DOMAIN imps :
     LET want == IF inv < 0 THEN imps[j] ELSE Least(imps[j], inv)
     IN Abs(total[j] - want) <= t + want \div 5000
Prefix(row, longer, t) ==
  \A j \in DOMAIN row : Len(longer[j]) >= Len(row[j])
     /\ \A k \in DOMAIN row[j] : Abs(row[j][k] - longer[j][k]) <= t

------------------------------------------------------------------------------
Init == shown = <<>> /\ train \in {<<i, r>> : i \in 1..MaxTrain, r \in 0..MaxTrain}
        /\ train[2] < train[1]
Show(u) == Len(shown) < MaxShown /\ shown' = Append(shown, u) /\ UNCHANGED train
Next == \E u \in Users : Show(u)
Spec == Init /\ [][Next]_vars

Grid == [j \in 1..(MaxShown + 2) |-> j - 1]
TrueTable == [j \in DOMAIN Grid |-> TrueRow(shown, Grid[j], MaxK)]
TrueTotals == [j \in DOMAIN Grid |-> SumSeq(TrueRow(shown, Grid[j], MaxShown + 1))]
RealAudienceIsACurve ==
  /\ NonNegative(TrueTable, 0) /\ FallsWithK(TrueTable, 0) /\ RisesWithImps(TrueTable, 0)
  /\ ZeroAtZero(Grid, TrueTable, 0)
  /\ BelowTop(TrueTable, Cardinality(Audience(shown)), 0)
  /\ WithinImpressions(Grid, TrueTable, 0)
  /\ AddsUp(Grid, TrueTotals, Len(shown), 0)
GoergTable == [j \in DOMAIN Grid |-> [k \in 1..MaxK |-> GoergMilli(train[1], train[2], Grid[j], k)]]
GoergIsACurve ==
  /\ NonNegative(GoergTable, 0) /\ FallsWithK(GoergTable, 0) /\ RisesWithImps(GoergTable, MaxK)
  /\ ZeroAtZero(Grid, GoergTable, 0)
  /\ BelowTop(GoergTable, RhoMilli(train[1], train[2]), 0)
  /\ WithinImpressions([j \in DOMAIN Grid |-> 1000 * Grid[j]], GoergTable, 0)
  /\ Abs(GoergMilli(train[1], train[2], train[1], 1) - 1000 * train[2]) <= 2
==============================================================================
