---------------------------- MODULE DataDesignGen ----------------------------
EXTENDS MCDataDesign, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, op')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
(* Skip behaviours that only look *)
Interesting == \E i \in DOMAIN hist : hist[i].name = "add"
Emit == (n = MaxOps /\ Interesting) => PrintT("GEN " \o ToJson(hist))
==============================================================================
