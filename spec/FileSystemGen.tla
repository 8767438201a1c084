--------------------------- MODULE FileSystemGen ---------------------------
EXTENDS MCFileSystem, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, op')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (n = MaxOps) => PrintT("GEN " \o ToJson([back |-> back, ops |-> hist]))
=============================================================================
