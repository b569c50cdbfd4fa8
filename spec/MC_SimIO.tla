------------------------------ MODULE MC_SimIO ------------------------------
EXTENDS SimIO
=============================================================================
