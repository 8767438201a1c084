--------------------------- MODULE QuantileSearch ---------------------------
(* C12.  Searching a non-decreasing reach curve for the last integer purchase *)
(* whose reach is within a quantile (num/den) of the maximum reach: doubling  *)
(* until the target is exceeded, then bisection.                              *)
EXTENDS Integers, Sequences, TLC

CONSTANTS N,          \* the curve is constant from N on
          R,          \* reach values 0..R
          Den,        \* quantiles num/Den
          MaxDoublings

VARIABLES curve,      \* sequence of N+1 reaches: curve[i+1] is the reach of i
          maxr,       \* the stated maximum reach
          num, lower, upper, niter, pc

vars == <<curve, maxr, num, lower, upper, niter, pc>>
NonDecreasing(c) == \A i \in 1..(Len(c) - 1) : c[i] <= c[i + 1]
ReachAt(c, i) == IF i + 1 <= Len(c) THEN c[i + 1] ELSE c[Len(c)]
Within(r, m, n, d) == r * d <= m * n          \* reach r is within quantile n/d of m
(* what the caller may rely on *)
IsAnswer(here, next, m, n, d) == Within(here, m, n, d) /\ ~Within(next, m, n, d)
Achievable(c, m, n, d) == ~Within(c[Len(c)], m, n, d)
Answer(c, m, n, d) == CHOOSE i \in 0..Len(c) : IsAnswer(ReachAt(c, i), ReachAt(c, i + 1), m, n, d)

Init ==
  /\ curve \in {c \in [1..(N + 1) -> 0..R] : NonDecreasing(c) /\ c[1] = 0}
  /\ maxr \in 0..R /\ num \in 1..(Den - 1)
  /\ lower = 0 /\ upper = 1 /\ niter = 0 /\ pc = "double"
Double ==
  /\ pc = "double"
  /\ IF Within(ReachAt(curve, upper), maxr, num, Den)
     THEN IF niter = MaxDoublings
          THEN pc' = "unachievable" /\ UNCHANGED <<lower, upper, niter>>
          ELSE lower' = upper /\ upper' = 2 * upper /\ niter' = niter + 1 /\ pc' = pc
     ELSE pc' = "bisect" /\ UNCHANGED <<lower, upper, niter>>
  /\ UNCHANGED <<curve, maxr, num>>
Bisect ==
  /\ pc = "bisect"
  /\ IF upper - lower > 1
     THEN LET mid == (upper + lower) \div 2 IN
          (IF Within(ReachAt(curve, mid), maxr, num, Den)
           THEN lower' = mid /\ upper' = upper
           ELSE lower' = lower /\ upper' = mid) /\ pc' = pc
     ELSE pc' = "done" /\ UNCHANGED <<lower, upper>>
  /\ UNCHANGED <<curve, maxr, num, niter>>
Next == Double \/ Bisect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bracketed ==
  /\ Within(ReachAt(curve, lower), maxr, num, Den)
  /\ pc \in {"bisect", "done"} => ~Within(ReachAt(curve, upper), maxr, num, Den)
DoneIsAnswer == pc = "done" => lower = Answer(curve, maxr, num, Den)
OnlyUnachievable == pc = "unachievable" => ~Achievable(curve, maxr, num, Den)
Terminates == <>(pc \in {"done", "unachievable"})
CurveKept == [][curve' = curve /\ maxr' = maxr]_vars
==============================================================================
