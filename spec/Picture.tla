------------------------------ MODULE Picture -------------------------------
(* What the video hardware shows for screen bytes, and the colours of the    *)
(* pixels.                                                                   *)
(*                                                                           *)
(* Hi-res: a byte is shifted out over 14 dots, bit 0 first, each of its seven *)
(* bits lasting two dots.  With the palette bit (7) set the signal passes    *)
(* through a latch that delays it by one dot, so the byte begins with the    *)
(* last bit of its left neighbour.  Double hi-res: a byte of either bank is  *)
(* shifted out over 7 dots, aux before main, and bit 7 is ignored.           *)
(*                                                                           *)
(* A pixel starts at every dot.  Its nominal colour is a 4-bit number: bit b *)
(* is the one of its four dots whose position on the row is b modulo 4.      *)
EXTENDS Integers, Sequences

Bit(n, i) == (n \div (2 ^ i)) % 2

--------------------------------------------------------------------------
(* The video scanner, as hardware: row is what is scanned (left to right; in *)
(* double hi-res aux and main bytes alternate, aux first).                   *)
CONSTANTS Rows, Dual
VARIABLES row, t, level, out
\* t: dots sent; level: the undelayed signal one dot ago; out: dots so far

Width == IF Dual THEN 7 ELSE 14
Signal(r, d) ==      \* undelayed
  LET b == r[d \div Width + 1] IN
  Bit(b, (d % Width) \div (IF Dual THEN 1 ELSE 2))
Delayed(b) == ~Dual /\ b >= 128

PInit == row \in Rows /\ t = 0 /\ level = 0 /\ out = <<>>
Scan == /\ t < Width * Len(row)
        /\ LET s == Signal(row, t) IN
             /\ out' = Append(out, IF Delayed(row[t \div Width + 1]) THEN level ELSE s)
             /\ level' = s
        /\ t' = t + 1 /\ UNCHANGED row
PSpec == PInit /\ [][Scan]_<<row, t, level, out>>

--------------------------------------------------------------------------
(* The same for one byte and its neighbours, by arithmetic: the dots from    *)
(* three before the byte to a few after it, lowest bit first.                *)

\* Each of 7 bits twice.
Double(n) == 3 * ((n % 2) + 4 * ((n \div 2) % 2) + 16 * ((n \div 4) % 2)
                  + 64 * ((n \div 8) % 2) + 256 * ((n \div 16) % 2)
                  + 1024 * ((n \div 32) % 2) + 4096 * ((n \div 64) % 2))
Doubles == [n \in 0..127 |-> Double(n)]
Last(b) == (b \div 64) % 2
HBody(b, before) == IF b < 128 THEN Doubles[b]
                    ELSE (2 * Doubles[b - 128] + before) % 16384
\* 3 dots of prev, 14 of b, 4 of next
HDots(prev, b, next) ==
  HBody(prev, 0) \div 2048 + 8 * HBody(b, Last(prev))
    + 131072 * (HBody(next, Last(b)) % 16)
\* 3 dots of prev, 7 of b, 3 of next
DDots(prev, b, next) ==
  (prev % 128) \div 16 + 8 * (b % 128) + 1024 * (next % 8)
\* Dot position, modulo 4, of the first of those dots, for the i-th byte.
HPhase(i) == IF i % 2 = 0 THEN 1 ELSE 3
DPhase(i) == (7 * i + 1) % 4

\* Colour of the pixel of four dots w (an int) that starts at position p.
Rot == [p \in 0..3 |-> [w \in 0..15 |->
          LET d(j) == Bit(w, j) IN
            d(0) * 2 ^ (p % 4) + d(1) * 2 ^ ((p + 1) % 4)
            + d(2) * 2 ^ ((p + 2) % 4) + d(3) * 2 ^ ((p + 3) % 4)]]
P2 == [i \in 0..20 |-> 2 ^ i]
\* The first n pixels of a dot sequence that starts at position p.
Pixels(dots, n, p) ==
  [i \in 1..n |-> Rot[(p + i - 1) % 4][(dots \div P2[i - 1]) % 16]]

HPixels(prev, b, next, i) == Pixels(HDots(prev, b, next), 18, HPhase(i))
DPixels(prev, b, next, i) == Pixels(DDots(prev, b, next), 10, DPhase(i))

--------------------------------------------------------------------------
(* Names of the colours, by value *)
HNames == <<"BLACK", "MAGENTA", "DARK_BLUE", "VIOLET", "DARK_GREEN", "GREY1",
            "MED_BLUE", "LIGHT_BLUE", "BROWN", "ORANGE", "GREY2", "PINK",
            "GREEN", "YELLOW", "AQUA", "WHITE">>
\* The colour reference is one dot later in double hi-res.
Ror(v) == (v \div 2) + 8 * (v % 2)
Rol(v) == ((2 * v) % 16) + v \div 8
DNames == [i \in 1..16 |-> HNames[Rol(i - 1) + 1]]

--------------------------------------------------------------------------
(* Invariants *)
At(d) == IF d < 0 \/ d >= Len(out) THEN 0 ELSE out[d + 1]
Byte(i) == IF i < 0 \/ i >= Len(row) THEN 0 ELSE row[i + 1]
Done == t = Width * Len(row)

\* The arithmetic gives the dots the scanner sent, wherever on the row.
ContextDots ==
  Done => \A i \in 0..Len(row)-1 :
    LET v == IF Dual THEN DDots(Byte(i - 1), Byte(i), Byte(i + 1))
             ELSE HDots(Byte(i - 1), Byte(i), Byte(i + 1))
        n == IF Dual THEN 13 ELSE 21 IN
    \A j \in 0..n-1 :
      LET d == Width * i - 3 + j IN
      d < Len(out) /\ (d >= 0) => Bit(v, j) = At(d)
\* A pixel has the colour its absolute position gives it, from any byte's
\* point of view.
Absolute(d) ==
  LET dot(b) == At(d + (CHOOSE j \in 0..3 : (d + j) % 4 = b)) IN
  dot(0) + 2 * dot(1) + 4 * dot(2) + 8 * dot(3)
PositionOnly ==
  Done => \A i \in 0..Len(row)-1 :
    LET px == IF Dual THEN DPixels(Byte(i - 1), Byte(i), Byte(i + 1), i)
              ELSE HPixels(Byte(i - 1), Byte(i), Byte(i + 1), i) IN
    \A j \in 1..Len(px) :
      LET d == Width * i - 3 + j - 1 IN
      d >= 0 /\ d + 3 < Len(out) => px[j] = Absolute(d)
===========================================================================
