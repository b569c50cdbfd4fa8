----------------------------- MODULE MC_Distance ----------------------------
EXTENDS Distance
CONSTANT Deep
\* All runs of one pixel, and of Deep pixels, in three colours; symmetric costs with zero
\* diagonal, below, at and above the cost of exchanges.
MCRuns == UNION {[1..n -> 0..2] : n \in {1, Deep}}
M(x, y, z) == <<<<0, x, y>>, <<x, 0, z>>, <<y, z, 0>>>>
MCCosts == {M(x, y, z) : x \in {0, 1, 3}, y \in {2, 7}, z \in {0, 5}}
===========================================================================
