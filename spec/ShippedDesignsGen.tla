------------------------- MODULE ShippedDesignsGen --------------------------
(* histories: which designs are listed one after the other, with which seed,    *)
(* and with what foreign activity before                                        *)
EXTENDS MCShippedDesigns, Json
CONSTANT MaxListed
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < MaxListed
         /\ \E d \in DOMAIN Announced, seed \in {1, 2}, prior \in BOOLEAN :
              hist' = Append(hist, [design |-> d, seed |-> seed, prior |-> prior])
         /\ (Len(hist') = MaxListed => PrintT("GEN " \o ToJson(hist')))
         /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
