---------------------------- MODULE PictureTrace ----------------------------
(* Checks what the code says is on the screen - dots and colours, for every  *)
(* context and for real screens - against Picture.                           *)
EXTENDS TraceLib

P == INSTANCE Picture WITH Rows <- {}, Dual <- FALSE, row <- 0, t <- 0, level <- 0, out <- 0
K == INSTANCE Packed WITH Dual <- FALSE, N <- 128, Values <- {}, mem <- 0, packed <- 0

Start == [dots |-> 0, pixels |-> 0, names |-> 0, rows |-> 0]

\* The bytes a masked hi-res context stands for: <<before, byte, after>>.
HContext(v, pos) ==
  LET before == 32 * (v % 4) + 128 * ((v \div 4) % 2)
      after == (v \div 4096) + 128 * ((v \div 2048) % 2) IN
  IF pos = 0 THEN <<before, (v \div 8) % 256, after>>
  ELSE <<before, ((v \div 16) % 128) + 128 * ((v \div 8) % 2), after>>
DContext(v) == <<16 * (v % 8), (v \div 8) % 128, v \div 1024>>

WantDots(dual, v, pos) ==
  IF dual THEN LET c == DContext(v) IN P!DDots(c[1], c[2], c[3])
  ELSE LET c == HContext(v, pos) IN P!HDots(c[1], c[2], c[3])
WantPixels(dual, v, pos) ==
  IF dual THEN LET c == DContext(v) IN P!DPixels(c[1], c[2], c[3], pos)
  ELSE LET c == HContext(v, pos) IN P!HPixels(c[1], c[2], c[3], pos)

Dots(s, e) ==
  Res([s EXCEPT !.dots = @ + Len(e.dots)],
      When(\E i \in 1..Len(e.dots) :
             e.dots[i] # WantDots(e.dual = 1, e.from + i - 1, e.pos), <<"C21", "Dots">>))

PixelRow(s, e) ==
  Res([s EXCEPT !.pixels = @ + Len(e.px)],
      When(\E i \in 1..Len(e.px) :
             e.px[i] # WantPixels(e.dual = 1, e.from + i - 1, e.pos), <<"C22", "Pixels">>))

Names(s, e) ==
  Res([s EXCEPT !.names = @ + 1],
      When(\E i \in 1..16 : e.names[i] # (IF e.dual = 1 THEN P!DNames ELSE P!HNames)[i],
           <<"C22", "ColourNames">>))

\* Any run of dots, from any phase: dots as a list of 0/1.
Run(s, e) ==
  Res(s, When(Len(e.px) # e.n \/ \E i \in 1..Len(e.px) :
                LET d(j) == IF i + j <= Len(e.dots) THEN e.dots[i + j] ELSE 0
                    w == d(0) + 2 * d(1) + 4 * d(2) + 8 * d(3) IN
                e.px[i] # P!Rot[(e.phase + i - 1) % 4][w],
              <<"C22", "Run">>))
\* Dots that repeat every four: the colour with that pattern, from its phase.
Solid(s, e) ==
  Res(s, When(\E i \in 1..Len(e.px) : e.px[i] # e.colour, <<"C22", "Solid">>))

\* A page of a real screen: the dots of every byte in its context.
Byte(pg, o) == IF o < 0 \/ o > 255 THEN 0 ELSE pg[o + 1]
\* In double hi-res, scanned bytes of the page in order: aux and main.
Scanned(e, k) ==    \* k-th byte scanned, from 0
  IF k < 0 \/ k > 511 THEN 0
  ELSE IF k % 2 = 0 THEN e.aux[k \div 2 + 1] ELSE e.main[k \div 2 + 1]
ScreenPage(s, e) ==
  LET dual == e.dual = 1
      n == IF dual THEN 4 ELSE 2 IN
  Res([s EXCEPT !.rows = @ + 1],
      When(\E pos \in 0..n-1, c \in 0..127 :
             LET k == n * c + pos
                 want == IF dual THEN P!DDots(Scanned(e, k - 1), Scanned(e, k), Scanned(e, k + 1))
                         ELSE P!HDots(Byte(e.main, k - 1), Byte(e.main, k), Byte(e.main, k + 1)) IN
             e.dots[pos + 1][c + 1] # want, <<"C21", "ScreenDots">>)
      \cup When(\E pos \in 0..n-1, c \in 0..127 :
             LET k == n * c + pos
                 want == IF dual THEN P!DPixels(Scanned(e, k - 1), Scanned(e, k), Scanned(e, k + 1), k)
                         ELSE P!HPixels(Byte(e.main, k - 1), Byte(e.main, k), Byte(e.main, k + 1), k) IN
             e.px[pos + 1][c + 1] # want, <<"C22", "ScreenPixels">>))

Step(s, e) ==
  CASE e.ev = "Dots" -> Dots(s, e)
    [] e.ev = "Pixels" -> PixelRow(s, e)
    [] e.ev = "Names" -> Names(s, e)
    [] e.ev = "Run" -> Run(s, e)
    [] e.ev = "Solid" -> Solid(s, e)
    [] e.ev = "ScreenPage" -> ScreenPage(s, e)
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})

All == 2 * 16384 + 4 * 8192
Final(s) ==
  When(\/ Prop = "C21" /\ (s.dots # All \/ s.rows = 0)
       \/ Prop = "C22" /\ (s.pixels # All \/ s.names # 2 \/ s.rows = 0), <<"X", "Incomplete">>)

VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
