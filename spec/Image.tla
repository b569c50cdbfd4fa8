------------------------------- MODULE Image -------------------------------
(* One video frame on its way to the encoder: it is scaled to the size the   *)
(* converter wants; the converter writes the bytes of a screen page for each *)
(* memory bank; the encoder gets them as pages of 256.                       *)
(*                                                                           *)
(* A picture [w, h, gx, gy, colours] consists of gx * gy blocks of equal     *)
(* size, each of one colour (a sequence of three), listed row by row.        *)
(* However pictures are scaled, a pixel that lies inside a block, further    *)
(* from its sides than a filter reaches, has the block's colour.             *)
EXTENDS Integers, Sequences, FiniteSets

\* How far a filter reaches, in pixels of the coarser of the two pictures
CONSTANT Reach

MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(x) == IF x < 0 THEN -x ELSE x
\* The blocks (from 0) of n along a side of length s that pixel x of t along
\* the scaled side is inside of.  In units of 1/(2t) of a pixel.
In(s, n, t, x) ==
  LET c == (2 * x + 1) * s
      r == 2 * Reach * MaxI(s, t)
      b == (s \div n) * 2 * t IN
  {k \in 0..(n - 1) : /\ (k = 0 \/ k * b <= c - r)
                      /\ (k = n - 1 \/ c + r <= (k + 1) * b)}
BlocksAt(p, tw, th, x, y) ==
  {k[2] * p.gx + k[1] + 1 : k \in In(p.w, p.gx, tw, x) \X In(p.h, p.gy, th, y)}
Near(a, b) == \A i \in 1..3 : AbsI(a[i] - b[i]) <= 2
\* May pixel (x, y) of the scaled picture have colour c?
MayBe(p, tw, th, x, y, c) == \A k \in BlocksAt(p, tw, th, x, y) : Near(c, p.colours[k])

\* The byte at an offset of a bank, as the encoder must see it
PageOf(pos) == pos \div 256
OffsetOf(pos) == pos % 256

--------------------------------------------------------------------------
(* A small model, to see that this tells right pictures from wrong ones.     *)
CONSTANTS Side, Target, Colours, Positions, Values
VARIABLES stage, pic, scaled, file, seen
ivars == <<stage, pic, scaled, file, seen>>

Pixel(p, x, y) == p.colours[((y * p.gy) \div p.h) * p.gx + (x * p.gx) \div p.w + 1]
Scale(p, f(_)) ==
  [q \in (0..(Target - 1)) \X (0..(Target - 1)) |->
     LET s == f(q) IN Pixel(p, (s[1] * p.w) \div Target, (s[2] * p.h) \div Target)]
Acceptable(p, img) == \A q \in DOMAIN img : MayBe(p, Target, Target, q[1], q[2], img[q])

Init == /\ stage = "decoded" /\ scaled = <<>> /\ file = <<>> /\ seen = <<>>
        /\ \E c \in [1..4 -> Colours] :
             /\ \A i, j \in 1..4 : i # j => c[i] # c[j]
             /\ pic = [w |-> Side, h |-> Side, gx |-> 2, gy |-> 2, colours |-> c]
Same(q) == q
DoScale == /\ stage = "decoded" /\ stage' = "scaled" /\ scaled' = Scale(pic, Same)
           /\ UNCHANGED <<pic, file, seen>>
Convert == /\ stage = "scaled" /\ stage' = "converted" /\ file' \in [Positions -> Values]
           /\ UNCHANGED <<pic, scaled, seen>>
Deliver == /\ stage = "converted" /\ stage' = "delivered"
           /\ seen' = [x \in {<<PageOf(q), OffsetOf(q)>> : q \in Positions} |->
                         file[x[1] * 256 + x[2]]]
           /\ UNCHANGED <<pic, scaled, file>>
Next == DoScale \/ Convert \/ Deliver
ISpec == Init /\ [][Next]_ivars

Last == Target - 1
MirrorX(q) == <<Last - q[1], q[2]>>
MirrorY(q) == <<q[1], Last - q[2]>>
Turn(q) == <<q[2], q[1]>>
Crop(q) == <<q[1] \div 2, q[2]>>
Swap(a, b, img) == [q \in DOMAIN img |-> [img[q] EXCEPT ![a] = img[q][b], ![b] = img[q][a]]]

Right == stage # "decoded" => Acceptable(pic, scaled)
Telling ==
  stage = "scaled" =>
    /\ ~Acceptable(pic, Scale(pic, MirrorX)) /\ ~Acceptable(pic, Scale(pic, MirrorY))
    /\ ~Acceptable(pic, Scale(pic, Turn)) /\ ~Acceptable(pic, Scale(pic, Crop))
    /\ ~Acceptable(pic, Swap(1, 3, scaled)) /\ ~Acceptable(pic, Swap(1, 2, scaled))
InPlace == stage = "delivered" =>
  \A q \in Positions : seen[<<PageOf(q), OffsetOf(q)>>] = file[q]
===========================================================================
