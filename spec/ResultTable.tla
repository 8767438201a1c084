------------------------------ MODULE ResultTable -----------------------------
(* C15.  The table of an experiment.  A configuration list is applied to every  *)
(* data set; configurations that are the same after specialisation count once.  *)
(* The trials are evaluated in bundles; a bundle may be retried; partial tables *)
(* are merged in any shape.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

CONSTANTS DataSets, Configs, MaxList

VARIABLES list, todo, accs, table
vars == <<list, todo, accs, table>>

(* ---- expected rows ----------------------------------------------------------- *)
(* a data set: [name, logs], a log being a sequence of users                       *)
UsersOf(log) == {log[i] : i \in DOMAIN log}
MaximumReach(d) == Cardinality(UNION {UsersOf(d.logs[i]) : i \in DOMAIN d.logs})
LargestReach(d) == Max({Cardinality(UsersOf(d.logs[i])) : i \in DOMAIN d.logs})
SetArg(kw, k, v) == [i \in DOMAIN kw |-> IF kw[i][1] = k THEN <<k, v>> ELSE kw[i]]
Specialise(c, d) ==
  [c EXCEPT !.spends = IF c.generates THEN [i \in DOMAIN d.logs |-> c.spends[1]] ELSE @,
            !.generates = FALSE,
            !.tpkw = SetArg(@, "npublishers", ToString(Len(d.logs)))]
TrialsOf(sets, cs) == {<<sets[i], Specialise(cs[j], sets[i])>> : i \in DOMAIN sets, j \in DOMAIN cs}
(* the identifying values of a row; score: what the probe model earns *)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Identity(t) ==
  LET d == t[1] c == t[2] IN
  [dataset |-> d.name, strategy |-> c.strategy, spm |-> c.spm, mpm |-> c.mpm, replica |-> c.replica,
   size |-> c.size, decay |-> c.decay, maxfreq |-> c.maxfreq, epsilon |-> c.epsilon, delta |-> c.delta,
   maximum |-> MaximumReach(d), largest |-> LargestReach(d), campaigns |-> Len(d.logs),
   fractions |-> SumSeq(c.spends), score |-> MaximumReach(d) - c.x, ok |-> 1]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* one row per trial: the rows' identities are those of the trials, as often *)
OnePerTrial(ids, sets, cs) ==
  LET ts == TrialsOf(sets, cs) IN
  /\ Len(ids) = Cardinality(ts)
  /\ \A t \in ts : Count(ids, Identity(t)) = Cardinality({u \in ts : Identity(u) = Identity(t)})

(* ---- bundles and merging ------------------------------------------------------ *)
Init == /\ list \in UNION {[1..k -> Configs] : k \in 1..MaxList}
        /\ todo = {<<d, list[i]>> : d \in DataSets, i \in DOMAIN list}
        /\ accs = <<>> /\ table = <<>>
Bundle(B) == /\ B # {} /\ accs' = Append(accs, [rows |-> SetToSeq(B), of |-> B]) /\ todo' = todo \ B
             /\ UNCHANGED <<list, table>>
(* the worker of a partial table is lost before it is merged *)
Lose(i) == /\ todo' = todo \cup accs[i].of /\ accs' = RemoveAt(accs, i) /\ UNCHANGED <<list, table>>
Empty == /\ Len(accs) < 3 /\ accs' = Append(accs, [rows |-> <<>>, of |-> {}]) /\ UNCHANGED <<list, todo, table>>
Merge(i, j) ==
  /\ i # j
  /\ LET m == [rows |-> accs[i].rows \o accs[j].rows, of |-> accs[i].of \cup accs[j].of]
         rest == SelectSeq([k \in DOMAIN accs |-> [a |-> accs[k], k |-> k]], LAMBDA r : r.k \notin {i, j})
     IN accs' = Append([k \in DOMAIN rest |-> rest[k].a], m)
  /\ UNCHANGED <<list, todo, table>>
Extract == /\ todo = {} /\ Len(accs) = 1 /\ table = <<>> /\ table' = accs[1].rows /\ UNCHANGED <<list, todo, accs>>
Next == \/ \E B \in SUBSET todo : Bundle(B)
        \/ \E i \in DOMAIN accs : Lose(i)
        \/ Empty
        \/ \E i, j \in DOMAIN accs : Merge(i, j)
        \/ Extract
Spec == Init /\ [][Next]_vars
Bounded == Len(accs) <= 3
Asked == {<<d, list[i]>> : d \in DataSets, i \in DOMAIN list}
ExactlyOnce == table # <<>> => Len(table) = Cardinality(Asked) /\ ToSet(table) = Asked
NothingLost == todo \cup UNION {accs[i].of : i \in DOMAIN accs} = Asked
NothingTwice == \A i, j \in DOMAIN accs : i # j => accs[i].of \cap accs[j].of = {}
==============================================================================
