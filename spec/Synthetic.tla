----------------------------- MODULE Synthetic ------------------------------
(* C05.  Synthetic impression logs, prices and data designs.                   *)
(* A design is generated from a list of entries [name, p, largest, num, den];  *)
(* num/den is the ratio of the smallest to the largest publisher.  All random  *)
(* choices are drawn from a source that belongs to the generation and starts   *)
(* at its seed; other activity of the process (`prior') draws elsewhere.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Names, Pubs, Sizes, Ratios, MaxEntries, Seeds

VARIABLES
  config,    \* the entries, fixed
  pos,       \* how many of them have been generated
  design,    \* the stored data sets, in order of generation
  refused,   \* a duplicate name has stopped the generation
  stream,    \* the state of the generation's own random source: <<seed, draws>>
  prior,     \* draws made by the rest of the process
  first,     \* the design of an earlier, complete generation with this seed
  run        \* 1 or 2
vars == <<config, pos, design, refused, stream, prior, first, run>>

Entries == [name : Names, p : Pubs, largest : Sizes, num : {r[1] : r \in Ratios}, den : {r[2] : r \in Ratios}]
ValidEntry(e) == <<e.num, e.den>> \in Ratios

RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)

(* t is s shrunk by the (p-1)-th root of num/den, rounded down; when the exact *)
(* value is an integer, floating point may land just below it                  *)
Shrinks(s, t, e) ==
  IF e.num = e.den THEN t = s
  ELSE LET k == e.p - 1 target == e.num * Power(s, k) IN
       /\ t >= 0
       /\ e.den * Power(t, k) <= target
       /\ e.den * Power(t + 1, k) >= target
GeometricSizes(sz, e) ==
  /\ Len(sz) = e.p
  /\ Len(sz) > 0 => sz[1] = e.largest
  /\ \A i \in 1..(Len(sz) - 1) : Shrinks(sz[i], sz[i + 1], e)

(* a log of n users: exactly 0..n-1, each at least once *)
ValidImpressions(n, log) == {log[i] : i \in DOMAIN log} = 0..(n - 1)
(* prices as multiples of the unit cost *)
FixedPriced(log, priced) ==
  /\ Len(priced) = Len(log)
  /\ \A i \in DOMAIN log : priced[i].u = log[i] /\ priced[i].p = i

Exact(s, e) == CHOOSE t \in 0..s : Shrinks(s, t, e) /\ (t = s \/ ~(e.den * Power(t + 1, e.p - 1) <= e.num * Power(s, e.p - 1)))
RECURSIVE SizesOf(_, _)
SizesOf(e, n) ==
  IF n = 1 THEN <<e.largest>>
  ELSE LET before == SizesOf(e, n - 1) IN Append(before, Exact(before[n - 1], e))

(* the abstract content: one draw per publisher, tagged by where it came from *)
Generated(e, st) ==
  [name |-> e.name, sizes |-> SizesOf(e, e.p),
   draws |-> [i \in 1..e.p |-> <<st[1], st[2] + i>>]]

------------------------------------------------------------------------------
Configs == UNION {[1..n -> {e \in Entries : ValidEntry(e)}] : n \in 0..MaxEntries}
Init == /\ config \in Configs
        /\ pos = 0 /\ design = <<>> /\ refused = FALSE
        /\ stream \in {<<s, 0>> : s \in Seeds}
        /\ prior \in 0..1 /\ first = <<>> /\ run = 1
Present == {design[i].name : i \in DOMAIN design}
GenerateNext ==
  /\ pos < Len(config) /\ ~refused
  /\ LET e == config[pos + 1] IN
       IF e.name \in Present
       THEN refused' = TRUE /\ UNCHANGED <<design, stream, pos>>
       ELSE /\ design' = Append(design, Generated(e, stream))
            /\ stream' = <<stream[1], stream[2] + e.p>>
            /\ pos' = pos + 1
            /\ UNCHANGED refused
  /\ UNCHANGED <<config, prior, first, run>>
OtherWork == prior < 3 /\ prior' = prior + 1 /\ UNCHANGED <<config, pos, design, refused, stream, first, run>>
Again == /\ run = 1 /\ (refused \/ pos = Len(config))
         /\ run' = 2 /\ first' = design /\ design' = <<>> /\ pos' = 0 /\ refused' = FALSE
         /\ stream' = <<stream[1], 0>>
         /\ UNCHANGED <<config, prior>>
Next == GenerateNext \/ OtherWork \/ Again
Spec == Init /\ [][Next]_vars

(* the properties *)
Distinct(cfg) == \A i, j \in DOMAIN cfg : i # j => cfg[i].name # cfg[j].name
OnePerEntry == /\ Len(design) = pos
               /\ \A i \in DOMAIN design : design[i].name = config[i].name
SizesRight == \A i \in DOMAIN design : GeometricSizes(design[i].sizes, config[i])
SizesShrink == \A i \in DOMAIN design : \A j \in 1..(Len(design[i].sizes) - 1) :
                 design[i].sizes[j + 1] <= design[i].sizes[j]
(* the last publisher is at most the configured fraction of the first *)
WithinRatio == \A i \in DOMAIN design :
  LET e == config[i] sz == design[i].sizes IN
  e.p > 1 => sz[e.p] * e.den <= e.num * e.largest
DuplicatesOnlyRefused == refused => ~Distinct(config)
Reproducible == run = 2 /\ pos = Len(config) => design = first
==============================================================================
