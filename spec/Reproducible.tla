----------------------------- MODULE Reproducible -----------------------------
(* C17.  One process evaluates trials in any order, with other work in between. *)
(* Random sources: the global one (glob) and the generator of each             *)
(* configuration (own), which all data sets share.  Reading a data set that is  *)
(* not cached draws from the global source.  An evaluation draws some values    *)
(* from each source; its row shows what it drew.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS DataSets, Configs, Seeds, MaxHistory

VARIABLES glob, own, cached, seen, points, steps
vars == <<glob, own, cached, seen, points, steps>>

(* a source is <<origin, number of draws>> *)
Init == /\ glob = <<"start", 0>> /\ own = [c \in Configs |-> <<c, 0>>] /\ cached = {}
        /\ seen = <<>> /\ points = <<>> /\ steps = 0
Reading(d, g) == IF d \in cached THEN g ELSE <<g[1], g[2] + 1>>
Row(d, c, s) == <<d, c, s, <<s, 0>>, own[c]>>   \* seeded after reading; a copy of the generator
Evaluate(d, c, s) ==
  /\ glob' = <<s, 3>> /\ own' = own /\ cached' = cached \cup {d}
  /\ seen' = Append(seen, [k |-> <<d, c, s>>, row |-> Row(d, c, s)])
  /\ points' = Append(points, [k |-> <<d, s>>, at |-> <<d, s>>])
OtherWork == glob' = <<"other", 1>> /\ UNCHANGED <<own, cached, seen, points>>
Read(d) == glob' = Reading(d, glob) /\ cached' = cached \cup {d} /\ UNCHANGED <<own, seen, points>>
NewProcess == glob' = <<"start", 0>> /\ cached' = {} /\ UNCHANGED <<own, seen, points>>
Next == /\ steps < MaxHistory /\ steps' = steps + 1
        /\ \/ \E d \in DataSets, c \in Configs, s \in Seeds : Evaluate(d, c, s)
           \/ OtherWork \/ NewProcess \/ \E d \in DataSets : Read(d)
Spec == Init /\ [][Next]_vars
Functional == \A i, j \in DOMAIN seen : seen[i].k = seen[j].k => seen[i].row = seen[j].row
SamePoints == \A i, j \in DOMAIN points : points[i].k = points[j].k => points[i].at = points[j].at
ConfigurationKept == [][own' = own]_vars
==============================================================================
