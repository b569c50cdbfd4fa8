------------------------------ MODULE MC_Pacing -----------------------------
(* Exhaustive exploration of Pacing at small rates, lengths and skips. *)
EXTENDS Pacing
MCRates == {<<n, d>> : n \in 1..5, d \in 1..9}
MCSkips == 1..3
MCFrames == 0..5
MCSamples == {0, 1, 2, 7, 12, 25}
===========================================================================
