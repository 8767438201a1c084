-------------------------- MODULE BudgetLedgerGen ---------------------------
(* histories of operations: every sequence of up to MaxQueries of them *)
EXTENDS MCBudgetLedger, Json
VARIABLE hist
Ops == [op : {"reach", "venn"}, k : Shares, s : Splits, active : 0..2]
       \cup [op : {"fit"}, k : Shares, p : 1..MaxPubs]
       \cup [op : {"single", "true", "refused"}, k : Shares]
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < MaxQueries
         /\ \E o \in Ops : hist' = Append(hist, o)
         /\ (Len(hist') = MaxQueries => PrintT("GEN " \o ToJson(hist')))
         /\ UNCHANGED bvars
GSpec == GInit /\ [][GNext]_<<bvars, hist>>
=============================================================================
