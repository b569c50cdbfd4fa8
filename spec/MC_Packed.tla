------------------------------ MODULE MC_Packed -----------------------------
(* Packed is explored exhaustively, and its masks are checked to carry       *)
(* exactly the bits Picture needs: the dots of a byte are a function of its  *)
(* masked column.                                                            *)
EXTENDS Packed
P == INSTANCE Picture WITH Rows <- {}, row <- 0, t <- 0, level <- 0, out <- 0
Sample == IF Dual THEN {0, 1, 7, 16, 64, 112, 127, 255}
          ELSE {0, 1, 3, 32, 64, 96, 128, 255}
\* Masked value -> dots, for the even and the odd byte of a column.
HDotsOfMask(m, pos) ==
  LET h == m % 8
      prev == 32 * (h % 4) + 128 * (h \div 4)
      b == IF pos = 0 THEN (m \div 8) % 256
           ELSE 128 * ((m \div 8) % 2) + ((m \div 16) % 128)
      f == m \div 2048
      next == 128 * (f % 2) + (f \div 2) IN
  P!HDots(prev, b, next)
DDotsOfMask(m) == m
ASSUME Dual \/ \A a \in Sample, b \in Sample, c \in Sample, d \in Sample :
  LET col == HCol(a, b, c, d) IN
    /\ HDotsOfMask(HMask(col, 0), 0) = P!HDots(a, b, c)
    /\ HDotsOfMask(HMask(col, 1), 1) = P!HDots(b, c, d)
ASSUME ~Dual \/ \A a \in Sample, b \in Sample, c \in Sample, d \in Sample :
  \A e \in {0, 85, 127} :
    LET lo == DLo(a, b, c)
        hi == DHi(d, e, a) IN
      /\ DMask(lo, hi, 0) = P!DDots(a, b, c)
      /\ DMask(lo, hi, 1) = P!DDots(b, c, d)
      /\ DMask(lo, hi, 2) = P!DDots(c, d, e)
      /\ DMask(lo, hi, 3) = P!DDots(d, e, a)
===========================================================================
