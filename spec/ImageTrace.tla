----------------------------- MODULE ImageTrace -----------------------------
(* Checks what became of real frames against Image.                          *)
EXTENDS TraceLib
I == INSTANCE Image WITH Reach <- 3, Side <- 0, Target <- 0, Colours <- {}, Positions <- {},
       Values <- {}, stage <- 0, pic <- 0, scaled <- 0, file <- 0, seen <- 0
Width == 280
Height == 192
Start == [pic |-> <<>>, file |-> <<>>, n |-> 0]
\* e.w, e.h, e.gx, e.gy, e.colours: the picture
Frame(s, e) ==
  Res([pic |-> e, file |-> <<>>, n |-> 0],
      When(\* every block must be seen somewhere
           \E k \in 0..(e.gx - 1) :
             \A x \in 0..(Width - 1) : k \notin I!In(e.w, e.gx, Width, x), <<"X", "Driver">>)
      \cup When(\E k \in 0..(e.gy - 1) :
             \A y \in 0..(Height - 1) : k \notin I!In(e.h, e.gy, Height, y), <<"X", "Driver">>))
\* e.size; e.pixels: <<x, y, colour>>; e.file: the bytes written, per bank
Converted(s, e) ==
  Res([s EXCEPT !.file = e.file, !.n = @ + 1],
      When(s.n > 0, <<"C36", "ConvertedTwice">>)
      \cup When(e.size # <<Width, Height>>, <<"C36", "Size">>)
      \cup When(\E p \in Range(e.pixels) :
             ~I!MayBe(s.pic, Width, Height, p[1], p[2], p[3]), <<"C36", "Picture">>))
\* e.banks: per bank, 32 pages of 256 bytes
Delivered(s, e) ==
  Res(s, When(\/ Len(e.banks) # Len(s.file)
              \/ \E b \in 1..MinOf(Len(e.banks), Len(s.file)) : \E q \in 0..8191 :
                   e.banks[b][I!PageOf(q) + 1][I!OffsetOf(q) + 1] # s.file[b][q + 1],
              <<"C36", "Bytes">>))
Step(s, e) == CASE e.ev = "Frame" -> Frame(s, e)
                [] e.ev = "Converted" -> Converted(s, e)
                [] e.ev = "Delivered" -> Delivered(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
