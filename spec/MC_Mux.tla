------------------------------- MODULE MC_Mux ------------------------------
(* Exhaustive exploration of Mux: every limit, supply and mode. *)
EXTENDS Mux
MCLimits == 0..46
MCSupplies == 0..14
===========================================================================
