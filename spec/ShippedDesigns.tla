--------------------------- MODULE ShippedDesigns ---------------------------
(* C24.  Designs list settings, one level per factor.  A factorial design lists *)
(* all combinations, the last factor fastest or in any other order.  A Latin    *)
(* hypercube design of n entries cuts every factor's axis into n slices, uses   *)
(* each slice once, at a random place in it (here: its first or second half),   *)
(* and takes the level that the place falls into.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Levels,    \* the set of levels of each factor
          Samples,   \* entries of a Latin design
          Kinds      \* of designs looked at

VARIABLES kind, listed,
          slices     \* factor -> slices not yet used
vars == <<kind, listed, slices>>

ProductOf(s) == IF s = <<>> THEN 1 ELSE
  LET f[i \in 0..Len(s)] == IF i = 0 THEN 1 ELSE f[i - 1] * s[i] IN f[Len(s)]
SizesOf(levels) == [f \in DOMAIN levels |-> Cardinality(levels[f])]
InBox(e, levels) == Len(e) = Len(levels) /\ \A f \in DOMAIN e : e[f] \in levels[f]
Toset(s) == {s[i] : i \in DOMAIN s}
Times(s, f, v) == Cardinality({i \in DOMAIN s : s[i][f] = v})
(* the level of the half-slice h (0..2n-1) of an axis with k levels *)
LevelOf(h, k, n) == 1 + (h * k) \div (2 * n)
FewestOf(n, k) == n \div k - 1
MostOf(n, k) == n \div k + 2

(* what a finished design promises *)
IsFactorial(s, levels) ==
  /\ \A i \in DOMAIN s : InBox(s[i], levels)
  /\ Len(s) = ProductOf(SizesOf(levels)) /\ Cardinality(Toset(s)) = Len(s)
IsEven(s, levels, n) ==
  /\ Len(s) = n
  /\ \A i \in DOMAIN s : InBox(s[i], levels)
  /\ \A f \in DOMAIN levels : LET k == Cardinality(levels[f]) IN
       \A v \in levels[f] : Times(s, f, v) >= FewestOf(n, k) /\ Times(s, f, v) <= MostOf(n, k)

Sizes == SizesOf(Levels)
Init == /\ kind \in Kinds /\ listed = <<>>
        /\ slices = [f \in DOMAIN Sizes |-> 0..(Samples - 1)]
Entries == [DOMAIN Sizes -> 1..4]
List == /\ kind = "factorial"
        /\ \E e \in Entries : InBox(e, Levels) /\ e \notin Toset(listed) /\ listed' = Append(listed, e)
        /\ UNCHANGED <<kind, slices>>
(* the slices of the first factor are taken in order: the order of the entries is irrelevant *)
Sample == /\ kind = "latin" /\ Len(listed) < Samples
          /\ \E c \in [DOMAIN Sizes -> 0..(Samples - 1)], j \in [DOMAIN Sizes -> {0, 1}] :
               /\ \A f \in DOMAIN Sizes : c[f] \in slices[f]
               /\ c[1] = Len(listed)
               /\ listed' = Append(listed, [f \in DOMAIN Sizes |-> LevelOf(2 * c[f] + j[f], Sizes[f], Samples)])
               /\ slices' = [f \in DOMAIN Sizes |-> slices[f] \ {c[f]}]
          /\ UNCHANGED kind
Next == List \/ Sample
Spec == Init /\ [][Next]_vars

WithinBox == \A i \in DOMAIN listed : InBox(listed[i], Levels)
FullFactorial == kind = "factorial" /\ Len(listed) = ProductOf(Sizes) => IsFactorial(listed, Levels)
EvenLatin == kind = "latin" /\ Len(listed) = Samples => IsEven(listed, Levels, Samples)
OnceEach == kind = "factorial" => Cardinality(Toset(listed)) = Len(listed)
=============================================================================
