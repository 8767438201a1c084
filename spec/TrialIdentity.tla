---------------------------- MODULE TrialIdentity ----------------------------
(* C21.  Configurations of trials, their specialisation to a data set, their  *)
(* names, and the store of results that is looked up by name.  Arguments are  *)
(* sequences of <<key, value>> pairs.                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Names, Args, Spends, Numbers, DataSets, MaxStored

VARIABLES templates, store, served
vars == <<templates, store, served>>

Keys(kw) == {kw[i][1] : i \in DOMAIN kw}
(* ---- specialisation: fractions: <<>> if the template fixes them ------------ *)
SetArg(kw, k, v) == [i \in DOMAIN kw |-> IF kw[i][1] = k THEN <<k, v>> ELSE kw[i]]
Specialise(c, npub, fractions) ==
  [c EXCEPT !.spends = IF c.generates THEN fractions ELSE @,
            !.generates = FALSE,
            !.tpkw = SetArg(@, "npublishers", ToString(npub))]
(* ---- the name as a sequence of tokens -------------------------------------- *)
Join(parts) == FoldLeft(LAMBDA a, p : IF a = <<>> THEN p ELSE a \o <<",">> \o p, <<>>, parts)
WithArgs(n, kw) ==
  IF kw = <<>> THEN <<n>>
  ELSE <<n, "(">> \o Join([i \in DOMAIN kw |-> <<kw[i][1], "=", kw[i][2]>>]) \o <<")">>
Name(c) ==
  Join(<<WithArgs(c.strategy, c.kw),
         <<"spends=(">> \o Join([i \in DOMAIN c.spends |-> <<c.spends[i]>>]) \o <<")">>,
         <<"size=", c.size>>,
         <<"replica=", c.replica>>,
         WithArgs("points", c.tpkw)>>)

(* ---- the store -------------------------------------------------------------- *)
Config == [strategy : Names, kw : Args, spends : Spends, size : Numbers, replica : Numbers,
           tpkw : {<<>>, <<<<"npublishers", "0">>>>}, generates : BOOLEAN]
Npub(d) == IF d = CHOOSE x \in DataSets : TRUE THEN 1 ELSE 2
Fractions(d) == [i \in 1..Npub(d) |-> "g"]
Init == templates \in [1..2 -> Config] /\ store = {} /\ served = <<>>
(* a trial asks for its result: a stored one is returned, else its own is made *)
Evaluate(t, d) ==
  LET c == Specialise(templates[t], Npub(d), Fractions(d))
      old == {r \in store : r.at = <<d, Name(c)>>}
  IN /\ served' = <<d, c, IF old = {} THEN <<d, c>> ELSE (CHOOSE r \in old : TRUE).of>>
     /\ store' = IF old = {} THEN store \cup {[at |-> <<d, Name(c)>>, of |-> <<d, c>>]} ELSE store
     /\ UNCHANGED templates
Next == Cardinality(store) < MaxStored /\ \E t \in 1..2, d \in DataSets : Evaluate(t, d)
Spec == Init /\ [][Next]_vars

ServedOwn == served = <<>> \/ served[3] = <<served[1], served[2]>>
OnePerLocation == \A r, s \in store : r.at = s.at => r = s
OnePerTrial == \A r, s \in store : r.of = s.of => r = s
TemplatesKept == [][templates' = templates]_vars
==============================================================================
