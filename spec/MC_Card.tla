------------------------------- MODULE MC_Card -------------------------------
EXTENDS Card, FiniteSets
CONSTANTS Most
\* At most so many cells other than registers hold something.
Few == Cardinality({a \in 0..(Size - 1) : mem[a] # 0} \ {Mode, Command, Status}) <= Most
=============================================================================
