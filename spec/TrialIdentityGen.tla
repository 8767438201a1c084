--------------------------- MODULE TrialIdentityGen --------------------------
(* Orders in which two templates are specialised to the data sets. *)
EXTENDS MCTrialIdentity, Json
VARIABLE log
GInit == Init /\ templates[1] = templates[2] /\ log = <<>>
GNext ==
  /\ Len(log) < 4
  /\ \E t \in 1..2, d \in DataSets : log' = Append(log, <<t, d>>)
  /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == Len(log) = 4 => PrintT("GEN " \o ToJson([log |-> log, generates |-> templates[1].generates, n |-> Len(templates[1].tpkw)]))
GView == <<templates[1].generates, Len(templates[1].tpkw), log>>
==============================================================================
