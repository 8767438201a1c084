---------------------------- MODULE MCDataDesign ----------------------------
EXTENDS DataDesign
MCSlotName == [s \in {"s1", "s2", "s3"} |-> IF s = "s3" THEN "n2" ELSE "n1"]
=============================================================================
