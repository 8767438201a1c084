--------------------------- MODULE TestPointsGen -----------------------------
(* Interleavings of generation with draws from the global source. *)
EXTENDS TestPoints, Json
VARIABLE log
GInit == Init /\ log = <<>>
GNext ==
  /\ Len(log) < 5
  /\ \/ /\ log' = Append(log, "global") /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)] # "global") /\ UNCHANGED vars
     \/ \E o \in Positions :
          log' = Append(log, "make" \o ToString(o)) /\ UNCHANGED vars
     \/ /\ log' = Append(log, "lazy") /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == Len(log) = 5 => PrintT("GEN " \o ToJson([npub |-> npub, strategy |-> strategy, size |-> size, log |-> log]))
GView == <<npub, strategy, size, log>>
==============================================================================
