------------------------------ MODULE MC_Frames ------------------------------
EXTENDS Frames
=============================================================================
