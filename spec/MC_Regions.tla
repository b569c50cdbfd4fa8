------------------------------ MODULE MC_Regions -----------------------------
EXTENDS Regions
R(lo, hi, rw, rint, wint, entries) ==
  [lo |-> lo, hi |-> hi, rw |-> rw, rint |-> rint, wint |-> wint, entries |-> entries]
Bools == {TRUE, FALSE}
\* Two regions, anywhere in the first n addresses, in every combination.
Pairs(n) ==
  {<<R(c[1], c[2], x[1], x[2], x[3], IF x[4] THEN {c[2]} ELSE {}),
     R(c[3], c[4], x[5], FALSE, x[6], IF x[4] THEN {} ELSE {c[3], c[4]})>> :
     c \in {d \in [1..4 -> 0..(n - 1)] :
              /\ d[1] <= d[2] /\ d[3] <= d[4] /\ (d[2] < d[3] \/ d[4] < d[1])},
     x \in [1..6 -> Bools]}
MCLayouts == Pairs(3) \cup {<<>>}
MCLayoutsDeep == Pairs(4) \cup {<<>>}
=============================================================================
