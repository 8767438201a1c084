------------------------------- MODULE Metrics -------------------------------
(* C20.  Summary statistics of the errors of modelled reach at test points.   *)
(* A point is the sequence of its k+ reaches.  xs are the true points, ys the *)
(* modelled ones.  All statistics are exact: each is multiplied by the        *)
(* denominator in its comment, where n = Len(xs) and L is a multiple of every *)
(* true reach.                                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS L, MaxPoints, TrueReaches, ModelReaches

VARIABLES xs, ys
vars == <<xs, ys>>

Abs(x) == IF x < 0 THEN -x ELSE x
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumSq(s) == SumOf([i \in DOMAIN s |-> s[i] * s[i]])
MaxFreq(p) == Len(p)
(* ---- per-point errors ----------------------------------------------------- *)
Err(x, y) == [i \in DOMAIN x |-> x[i][1] - y[i][1]]
RelErr(x, y, k) == [i \in DOMAIN x |-> (x[i][k] - y[i][k]) * (L \div x[i][k])]     \* times L
AbsOf(s) == [i \in DOMAIN s |-> Abs(s[i])]
(* ---- statistics ------------------------------------------------------------ *)
SumErr(x, y) == SumOf(Err(x, y))                                                  \* mean_error: n
SumAbsErr(x, y) == SumOf(AbsOf(Err(x, y)))                                        \* mean_abs_error: n
SumSqErr(x, y) == SumSq(Err(x, y))                                                \* mean_squared_error: n
VarN2(s) == Len(s) * SumSq(s) - SumOf(s) * SumOf(s)                               \* variance: n^2
HasFreq(x, y, k) == \A i \in DOMAIN x : MaxFreq(x[i]) >= k /\ MaxFreq(y[i]) >= k
SumAbsRel(x, y, k) == SumOf(AbsOf(RelErr(x, y, k)))                               \* relative error at k: n L
SumSqRel(x, y) == SumSq(RelErr(x, y, 1))                                          \* n L^2
Sorted(s) == SortSeq(s, <)
(* the q/10 quantile with linear interpolation, times 10 L *)
Quantile10(s, q) ==
  LET t == Sorted(s)
      h == (Len(s) - 1) * q
      lo == 1 + (h \div 10)
      fr == h % 10
  IN 10 * t[lo] + (IF fr = 0 THEN 0 ELSE fr * (t[lo + 1] - t[lo]))
(* ---- shuffle distance over the first five frequencies --------------------- *)
SD == 4000                                         \* distances in units of 1/SD
Freq(p, k) == p[k] - p[k + 1]
First5(p) == p[1] - p[6]
Shuffle(p, q) ==
  IF MaxFreq(p) <= 5 \/ MaxFreq(q) <= 5 THEN SD
  ELSE IF First5(p) = 0 \/ First5(q) = 0 THEN SD \div 2
  ELSE LET sx == First5(p)
           sy == First5(q)
           d == SumOf([k \in 1..5 |-> Abs(Freq(p, k) * sy - Freq(q, k) * sx)])
       IN (SD * d) \div (2 * sx * sy)
Shuffles(x, y) == [i \in DOMAIN x |-> Shuffle(x[i], y[i])]

(* ---- exploring all small lists --------------------------------------------- *)
Flat(r) == <<r>>
Steep(r) == <<r, r \div 2, r \div 3, r \div 4, r \div 5, r \div 6>>
Even(r) == [k \in 1..6 |-> r]
Shapes == {"flat", "steep", "even"}
Shape(s, r) == CASE s = "flat" -> Flat(r) [] s = "steep" -> Steep(r) [] s = "even" -> Even(r)
Init == xs = <<>> /\ ys = <<>>
Add ==
  /\ Len(xs) < MaxPoints
  /\ \E r \in TrueReaches, m \in ModelReaches, s, t \in Shapes :
       xs' = Append(xs, Shape(s, r)) /\ ys' = Append(ys, Shape(t, m))
Swap ==
  /\ Len(xs) >= 2
  /\ xs' = <<xs[2], xs[1]>> \o SubSeq(xs, 3, Len(xs))
  /\ ys' = <<ys[2], ys[1]>> \o SubSeq(ys, 3, Len(ys))
Next == Add \/ Swap
Spec == Init /\ [][Next]_vars

N == Len(xs)
Rel == RelErr(xs, ys, 1)
Perfect ==
  N > 0 /\ xs = ys =>
    /\ SumErr(xs, ys) = 0 /\ SumAbsErr(xs, ys) = 0 /\ SumSqErr(xs, ys) = 0
    /\ SumAbsRel(xs, ys, 1) = 0 /\ SumSqRel(xs, ys) = 0 /\ VarN2(Rel) = 0
    /\ \A q \in 1..9 : Quantile10(AbsOf(Rel), q) = 0
    /\ \A i \in 1..N : MaxFreq(xs[i]) > 5 /\ First5(xs[i]) > 0 => Shuffle(xs[i], ys[i]) = 0
Consistent ==
  N > 0 =>
    /\ VarN2(Err(xs, ys)) >= 0 /\ VarN2(Rel) >= 0
    /\ Abs(SumErr(xs, ys)) <= SumAbsErr(xs, ys)
    /\ \A q \in 1..8 : Quantile10(AbsOf(Rel), q) <= Quantile10(AbsOf(Rel), q + 1)
    /\ \A q \in 1..9 : Quantile10(AbsOf(Rel), q) >= 0
    /\ \A i \in 1..N : Shuffles(xs, ys)[i] \in 0..SD
Stats(x, y) ==
  IF x = <<>> THEN <<>> ELSE
  <<SumErr(x, y), SumAbsErr(x, y), SumSqErr(x, y), VarN2(Err(x, y)), SumAbsRel(x, y, 1), SumSqRel(x, y),
    VarN2(RelErr(x, y, 1)), [q \in 1..9 |-> Quantile10(AbsOf(RelErr(x, y, 1)), q)], SumOf(Shuffles(x, y))>>
OrderIrrelevant == [][Len(xs') = Len(xs) => Stats(xs', ys') = Stats(xs, ys)]_vars
==============================================================================
