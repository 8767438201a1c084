----------------------------- MODULE PrivacyLog -----------------------------
(* C07.  The log of noising events and the consumption reported from it.       *)
(* The users are spread over the circle [0,1); here it is cut into G cells.    *)
(* An event with start s and rate r (in cells) touches the cells s, s+1, ...,  *)
(* s+r-1 modulo G.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, TLC

CONSTANTS G, Eps, Del, MaxEvents

VARIABLE log     \* sequence of [s, r, eps, del]

Events == [s : 0..(G - 1), r : 0..G, eps : Eps, del : Del]

Covers(e, b, g) == ((b - e.s + g) % g) < e.r

(* what is used up for the people of cell b, on a circle of g cells *)
Used(lg, b, g) ==
  [eps |-> FoldFunctionOnSet(LAMBDA x, y : x + y, 0,
              [i \in DOMAIN lg |-> IF Covers(lg[i], b, g) THEN lg[i].eps ELSE 0], DOMAIN lg),
   del |-> FoldFunctionOnSet(LAMBDA x, y : x + y, 0,
              [i \in DOMAIN lg |-> IF Covers(lg[i], b, g) THEN lg[i].del ELSE 0], DOMAIN lg)]

Total(lg, g) == [eps |-> Max({Used(lg, b, g).eps : b \in 0..(g - 1)}),
                 del |-> Max({Used(lg, b, g).del : b \in 0..(g - 1)})]

SumOf(lg) == [eps |-> FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in DOMAIN lg |-> lg[i].eps], DOMAIN lg),
              del |-> FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in DOMAIN lg |-> lg[i].del], DOMAIN lg)]

------------------------------------------------------------------------------
Init == log = <<>>
Record(e) == Len(log) < MaxEvents /\ log' = Append(log, e)
Next == \E e \in Events : Record(e)
Spec == Init /\ [][Next]_log

(* Only the starting points (and 0, for intervals that wrap) need inspection:  *)
(* this is how the implementation may compute the maximum.                      *)
StartsSuffice ==
  LET starts == {0} \cup {log[i].s : i \in DOMAIN log} IN
  Total(log, G) = [eps |-> Max({Used(log, b, G).eps : b \in starts}),
                   del |-> Max({Used(log, b, G).del : b \in starts})]
AtMostTheSum == /\ Total(log, G).eps <= SumOf(log).eps
                /\ Total(log, G).del <= SumOf(log).del
FullCoverIsSum ==
  (\A i \in DOMAIN log : log[i].r = G) => Total(log, G) = SumOf(log)
OrderFree ==
  \A f \in Permutations(DOMAIN log) : Total([i \in DOMAIN log |-> log[f[i]]], G) = Total(log, G)
NeverDecreases ==
  [][/\ Total(log, G).eps <= Total(log', G).eps
     /\ Total(log, G).del <= Total(log', G).del]_log
==============================================================================
