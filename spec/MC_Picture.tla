----------------------------- MODULE MC_Picture -----------------------------
EXTENDS Picture
Bytes == IF Dual THEN {0, 1, 8, 64, 85, 127, 170, 240}
         ELSE {0, 1, 64, 85, 127, 128, 129, 192, 170, 255, 224}
MCRows == {<<a, b, c, d>> : a \in Bytes, b \in Bytes, c \in Bytes, d \in Bytes}
\* A pattern that repeats every four dots is one solid colour, the one with
\* that bit pattern; all sixteen occur.
ASSUME \A w \in 0..15, p \in 0..3 :
  LET dots == w * (1 + 16 + 256 + 4096) IN
    \A j \in 1..13 : Pixels(dots, 13, p)[j] = Pixels(dots, 13, p)[1]
ASSUME \A w \in 0..15 : Pixels(w * 4369, 1, 0)[1] = w
ASSUME {DNames[i] : i \in 1..16} = {HNames[i] : i \in 1..16}
ASSUME \A v \in 0..15 : DNames[Ror(v) + 1] = HNames[v + 1]
===========================================================================
