----------------------------- MODULE MC_Geometry ----------------------------
EXTENDS Geometry
MCCells == {0, 255, 256, 8191}
ASSUME Bijective /\ HolesAreTheRest
===========================================================================
