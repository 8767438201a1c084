----------------------------- MODULE NoiseSource ----------------------------
(* C23.  Where the noise of the simulated system comes from.  Every system has  *)
(* its own random source, started at a seed; a query takes some values from it  *)
(* and starts one noise stream per noised quantity from values of its own.      *)
(* Other work of the process uses the global source.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Systems,     \* names
          SeedOf,      \* system -> seed
          Kinds,       \* kinds of queries
          Streams,     \* kind -> number of noised quantities
          Extra,       \* kind -> other values taken from the source before them
          MaxQueries, MaxForeign

VARIABLES pos,     \* system -> position of its source
          used,    \* system -> sequence of streams, each <<seed, position>>
          hist,    \* system -> the queries that moved its source, in order
          glob     \* position of the global source
vars == <<pos, used, hist, glob>>

(* a question about the truth moves nothing and is not part of the history *)
Moves(q) == Streams[q] + Extra[q] > 0
NewStreams(s, q) == [i \in 1..Streams[q] |-> <<SeedOf[s], pos[s] + Extra[q] + i>>]

Init == /\ pos = [s \in Systems |-> 0]
        /\ used = [s \in Systems |-> <<>>]
        /\ hist = [s \in Systems |-> <<>>]
        /\ glob = 0
Query(s, q) ==
  /\ Len(hist[s]) < MaxQueries
  /\ pos' = [pos EXCEPT ![s] = @ + Extra[q] + Streams[q]]
  /\ used' = [used EXCEPT ![s] = @ \o NewStreams(s, q)]
  /\ hist' = [hist EXCEPT ![s] = IF Moves(q) THEN Append(@, q) ELSE @]
  /\ UNCHANGED glob
Foreign == glob < MaxForeign /\ glob' = glob + 1 /\ UNCHANGED <<pos, used, hist>>
Next == Foreign \/ \E s \in Systems, q \in Kinds : Query(s, q)
Spec == Init /\ [][Next]_vars

Toset(x) == {x[i] : i \in DOMAIN x}
Distinct(x) == Cardinality(Toset(x)) = Len(x)
(* no two noised quantities of a system share their noise *)
Fresh == \A s \in Systems : Distinct(used[s])
(* nor do systems with different seeds *)
Separate == \A s, t \in Systems : SeedOf[s] # SeedOf[t] => Toset(used[s]) \cap Toset(used[t]) = {}
(* equal seeds and equal histories: equal noise *)
Repeatable == \A s, t \in Systems : SeedOf[s] = SeedOf[t] /\ hist[s] = hist[t] => used[s] = used[t] /\ pos[s] = pos[t]
GlobalKept == [][hist' # hist => glob' = glob]_vars
=============================================================================
