---------------------------- MODULE TrialFailureGen ---------------------------
(* One or two failing trials, each at any phase and position.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxQ, MaxK, Modes
VARIABLE s
Faults(q, k, an) ==
  [phase : {"fit"}, at : 0..q] \cup [phase : {"halo"}, at : 1..q]
  \cup [phase : {"points"}, at : 0..k] \cup [phase : {"truth"}, at : 1..k]
  \cup [phase : {"predict"}, at : 1..k] \cup [phase : {"score"}, at : 1..2]
  \cup (IF an THEN [phase : {"predict"}, at : {k + 1, k + 30, k + 31, k + 60, k + 61}] ELSE {})
  \cup [phase : {"none"}, at : {0}]
GInit == s \in {[q |-> q, k |-> k, analysis |-> an, mode |-> m, fault |-> f] :
                 q \in 0..MaxQ, k \in 1..MaxK, an \in BOOLEAN, m \in Modes, f \in UNION {Faults(qq, kk, a) : qq \in 0..MaxQ, kk \in 1..MaxK, a \in BOOLEAN}}
GSpec == GInit /\ [][FALSE]_s
Emit == s.fault \in Faults(s.q, s.k, s.analysis) => PrintT("GEN " \o ToJson(s))
==============================================================================
