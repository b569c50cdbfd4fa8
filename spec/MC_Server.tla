------------------------------ MODULE MC_Server ------------------------------
EXTENDS Server
Sizes == [v \in Versions |-> IF v = First THEN 2 ELSE 3]
=============================================================================
