---- MODULE MC_Codec ----
EXTENDS Codec
MCAddrs == {8192, 8448, 16385, 16641}
====
