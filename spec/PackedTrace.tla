----------------------------- MODULE PackedTrace -----------------------------
(* Checks the packed columns of the code's bitmaps, built afresh and kept up *)
(* to date through histories of stores, against Packed.                      *)
EXTENDS TraceLib

P == INSTANCE Packed WITH Dual <- FALSE, N <- 128, Values <- {}, mem <- 0, packed <- 0

Start == [dual |-> FALSE, mem |-> [p \in 0..31 |-> <<>>], stale |-> {}]

\* A page of memory in the state: <<main, aux>>, tuples of 256 bytes.
Byte(pg, b, o) == IF o < 0 \/ o > 255 THEN 0 ELSE pg[b + 1][o + 1]
Col(dual, pg, c) ==
  IF dual THEN <<P!DLo(Byte(pg, 0, 2*c - 1), Byte(pg, 1, 2*c), Byte(pg, 0, 2*c)),
                 P!DHi(Byte(pg, 1, 2*c + 1), Byte(pg, 0, 2*c + 1), Byte(pg, 1, 2*c + 2))>>
  ELSE LET v == P!HCol(Byte(pg, 0, 2*c - 1), Byte(pg, 0, 2*c),
                       Byte(pg, 0, 2*c + 1), Byte(pg, 0, 2*c + 2)) IN
       <<v % 131072, v \div 131072>>

\* A new bitmap: its memory and its packed columns, page by page.
Page(s, e) ==
  LET dual == e.dual = 1
      pg == <<e.main, e.aux>> IN
  Res([s EXCEPT !.dual = dual, !.mem[e.p] = pg, !.stale = 0..31],
      When(\E c \in 0..127 :
             <<e.packed[c + 1][1], e.packed[c + 1][2]>> # Col(dual, pg, c),
           <<"C20", "FreshPacking">>))

Store(s, e) ==
  LET b == e.op[1] p == e.op[2] o == e.op[3] v == e.op[4]
      old == s.mem[p]
      new == [old EXCEPT ![b + 1][o + 1] = v]
      c == o \div 2
      cols == {x \in {c - 1, c, c + 1} : x \in 0..127}
      want == {<<p, x, Col(s.dual, new, x)>> :
                 x \in {y \in cols : Col(s.dual, new, y) # Col(s.dual, old, y)}}
      cell == IF Byte(old, b, o) = v THEN {} ELSE {<<b, p, o, v>>} IN
  Res([s EXCEPT !.mem[p] = new],
      When({<<x[1], x[2], <<x[3], x[4]>>>> : x \in Range(e.cols)} # want,
           <<"C20", "PackedAfterStore">>)
      \cup When({<<x[1], x[2], x[3], x[4]>> : x \in Range(e.cells)} # cell,
                <<"C20", "MemoryAfterStore">>))

\* The screen was compared with another one: e.changed, what that changed.
Judged(s, e) == Res(s, When(e.changed # <<>>, <<"C20", "ChangedByLooking">>))

\* The same memory packed afresh, at the end.
Again(s, e) ==
  LET pg == s.mem[e.p] IN
  Res([s EXCEPT !.stale = @ \ {e.p}],
      When(\E c \in 0..127 : <<e.fresh[c + 1][1], e.fresh[c + 1][2]>> # Col(s.dual, pg, c),
           <<"C20", "FreshPacking">>)
      \cup When(e.fresh # e.kept, <<"C20", "KeptDiffersFromFresh">>))

Step(s, e) ==
  CASE e.ev = "Page" -> Page(s, e)
    [] e.ev = "Store" -> Store(s, e)
    [] e.ev = "Judged" -> Judged(s, e)
    [] e.ev = "Again" -> Again(s, e)
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == When(s.stale # {}, <<"X", "Incomplete">>)

VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
