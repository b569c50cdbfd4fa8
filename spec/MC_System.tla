----------------------------- MODULE MC_System -----------------------------
(* Exhaustive exploration of System: every movie of two pictures, switching  *)
(* at every sample, every choice of the encoder, every delivery and pause.   *)
EXTENDS System
MCSamples == {1, 7}
MCSamplesT == {1, 4, 10}
============================================================================
