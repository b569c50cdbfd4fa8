----------------------------- MODULE MC_Encoder -----------------------------
EXTENDS Encoder
\* Values 0 and 1 look the same; 2 and 3 are close; 4 is far from all.
MCErr == [a \in 0..4 |-> [b \in 0..4 |->
            IF a = b THEN 0
            ELSE IF {a, b} = {0, 1} THEN 0
            ELSE IF {a, b} = {2, 3} THEN 1
            ELSE IF 4 \in {a, b} THEN 5 ELSE 3]]
===========================================================================
