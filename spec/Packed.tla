------------------------------- MODULE Packed -------------------------------
(* The packed representation of screen memory: columns of two bytes (hi-res) *)
(* or two bytes of each bank (double hi-res), with three bits of context     *)
(* copied from either neighbouring column of the same memory page.           *)
(*                                                                           *)
(* Column layout, from bit 0:                                                *)
(*   hi-res   hhH aaaaaaaA Bbbbbbbb Fff   (a, b: even and odd byte; capital: *)
(*            palette bit; h: bits 5, 6 and 7 of the byte before; f: bits 7, *)
(*            0 and 1 of the byte after): 22 bits                            *)
(*   double   hhh aux main aux main fff   (7 bits each): 34 bits, here as    *)
(*            two 17-bit halves                                              *)
(* The model stores bytes and patches the packed columns incrementally, as   *)
(* the encoder must; the invariant is that they equal packing afresh.        *)
EXTENDS Integers, Sequences

HEven(b) == 8 * b                                         \* bits 3..10
HOdd(b) == 2048 * (b \div 128) + 4096 * (b % 128)         \* bits 11..18
HHead(before) == (before % 128) \div 32 + 4 * (before \div 128)
HFoot(after) == 524288 * (after \div 128 + 2 * (after % 4))
HCol(before, e, o, after) == HHead(before) + HEven(e) + HOdd(o) + HFoot(after)

DHead(before) == (before % 128) \div 16
DLo(before, a0, m0) == DHead(before) + 8 * (a0 % 128) + 1024 * (m0 % 128)
DHi(a1, m1, after) == (a1 % 128) + 128 * (m1 % 128) + 16384 * (after % 8)

\* What the distance of the byte at each position in a column is judged on.
HMask(c, pos) == IF pos = 0 THEN c % 16384 ELSE c \div 256
DMask(lo, hi, pos) ==
  CASE pos = 0 -> lo % 8192
    [] pos = 1 -> (lo \div 128) + 1024 * (hi % 8)
    [] pos = 2 -> (lo \div 16384) + 8 * (hi % 1024)
    [] pos = 3 -> hi \div 16

\* Packing a page afresh.  m: bytes of a bank by offset (0..2n-1); columns of
\* a hi-res page are ints, those of a double hi-res page pairs of ints.
HPack(m, n) ==
  [c \in 0..n-1 |->
     HCol(IF c = 0 THEN 0 ELSE m[2*c - 1], m[2*c], m[2*c + 1],
          IF c = n - 1 THEN 0 ELSE m[2*c + 2])]
DColOf(m, x, c, n) ==
  <<DLo(IF c = 0 THEN 0 ELSE m[2*c - 1], x[2*c], m[2*c]),
    DHi(x[2*c + 1], m[2*c + 1], IF c = n - 1 THEN 0 ELSE x[2*c + 2])>>
DPack(m, x, n) == [c \in 0..n-1 |-> DColOf(m, x, c, n)]

--------------------------------------------------------------------------
CONSTANTS Dual, N,      \* columns per page (128)
          Values
VARIABLES mem,          \* bank (0 main, 1 aux) -> offset -> byte
          packed
pvars == <<mem, packed>>

Pack(m) == IF Dual THEN DPack(m[0], m[1], N) ELSE HPack(m[0], N)
Banks == IF Dual THEN {0, 1} ELSE {0}

Init == /\ mem = [b \in {0, 1} |-> [o \in 0..2*N-1 |-> 0]]
        /\ packed = Pack(mem)

\* Replace bits [at, at + len) of a number.
Patch(v, at, len, new) ==
  ((v \div 2^(at + len)) * 2^(at + len)) + new * 2^at + (v % 2^at)

\* Storing v patches the byte's own column, and the context bits of the next
\* or the previous one if the byte is at an end of its column.
HStore(p, o, v) ==
  LET c == o \div 2 IN
  IF o % 2 = 0
  THEN [i \in 0..N-1 |->
          IF i = c THEN Patch(p[i], 3, 8, v)
          ELSE IF i = c - 1 THEN Patch(p[i], 19, 3, v \div 128 + 2 * (v % 4))
          ELSE p[i]]
  ELSE [i \in 0..N-1 |->
          IF i = c THEN Patch(p[i], 11, 8, v \div 128 + 2 * (v % 128))
          ELSE IF i = c + 1 THEN Patch(p[i], 0, 3, HHead(v))
          ELSE p[i]]
DStore(p, b, o, v) ==
  LET c == o \div 2
      w == v % 128 IN
  [i \in 0..N-1 |->
     CASE i = c /\ o % 2 = 0 /\ b = 1 -> <<Patch(p[i][1], 3, 7, w), p[i][2]>>
       [] i = c /\ o % 2 = 0 /\ b = 0 -> <<Patch(p[i][1], 10, 7, w), p[i][2]>>
       [] i = c /\ o % 2 = 1 /\ b = 1 -> <<p[i][1], Patch(p[i][2], 0, 7, w)>>
       [] i = c /\ o % 2 = 1 /\ b = 0 -> <<p[i][1], Patch(p[i][2], 7, 7, w)>>
       [] i = c - 1 /\ o % 2 = 0 /\ b = 1 -> <<p[i][1], Patch(p[i][2], 14, 3, w % 8)>>
       [] i = c + 1 /\ o % 2 = 1 /\ b = 0 -> <<Patch(p[i][1], 0, 3, w \div 16), p[i][2]>>
       [] OTHER -> p[i]]

Store(b, o, v) ==
  /\ mem' = [mem EXCEPT ![b][o] = v]
  /\ packed' = IF Dual THEN DStore(packed, b, o, v) ELSE HStore(packed, o, v)

Next == \E b \in Banks, o \in 0..2*N-1, v \in Values : Store(b, o, v)
Spec == Init /\ [][Next]_pvars

Mirror == packed = Pack(mem)
\* A store changes nothing but its own byte.
OneByte == [][\A b \in {0, 1}, o \in 0..2*N-1 :
                mem'[b][o] # mem[b][o] =>
                  \A c \in {0, 1}, q \in 0..2*N-1 :
                    <<c, q>> # <<b, o>> => mem'[c][q] = mem[c][q]]_pvars
===========================================================================
