---------------------------- MODULE GeometryTrace ---------------------------
(* Checks the address tables of the code, and replayed histories of writes   *)
(* through its memory views, against Geometry.                               *)
EXTENDS TraceLib

G == INSTANCE Geometry WITH Scrns <- {}, Cells <- {}, Values <- {}, MaxOps <- 0,
        scrn <- 0, mem <- 0, views <- 0, hist <- 0

\* mem: the non-zero cells; kinds: what each view is; seen: addresses seen.
Start == [mem |-> <<>>, kinds |-> <<>>, scrn |-> 0, rows |-> 0, pages |-> 0, coords |-> 0]

Row(s, e) ==
  Res([s EXCEPT !.rows = @ + 1],
      When(\/ e.base # <<G!BaseAddr(e.y, 1), G!BaseAddr(e.y, 2)>>
           \/ e.table # e.base, <<"C19", "RowAddress">>)
      \cup When(e.y # s.rows \/ Len(e.page) # 40 \/ Len(e.off) # 40, <<"C19", "RowShape">>)
      \cup When(\E x \in 0..39 : e.page[x + 1] # G!PageOf(e.y, x)
                             \/ e.off[x + 1] # G!OffOf(e.y, x), <<"C19", "CoordsToPage">>))

Page(s, e) ==
  Res([s EXCEPT !.pages = @ + 1],
      When(\E o \in 0..255 : e.hole[o + 1] # G!Hole(o), <<"C19", "Holes">>)
      \cup When(\E o \in 0..255 : ~G!Hole(o) /\
                  (e.x[o + 1] # G!ColOf(o) \/ e.y[o + 1] # G!RowOf(e.p, o)),
                <<"C19", "PageToCoords">>))

Coords(s, e) ==
  Res([s EXCEPT !.coords = @ + Len(e.items)],
      When(\E i \in 1..Len(e.items) :
             LET c == e.items[i] IN
               \/ c[2] \notin {0, 1} \/ c[3] \notin G!Rows \/ c[4] \notin G!Cols
               \/ c[1] # G!Addr(c[3], c[4], c[2] + 1), <<"C19", "AddrToCoords">>))

Put(mem, c, v) == IF v = 0 THEN [x \in DOMAIN mem \ {c} |-> mem[x]]
                  ELSE [x \in DOMAIN mem \cup {c} |-> IF x = c THEN v ELSE mem[x]]
Get(mem, c) == IF c \in DOMAIN mem THEN mem[c] ELSE 0

View(s, e) ==
  LET new == e.op[1] = "new"
      want == IF new THEN e.op[2]
              ELSE IF s.kinds[e.op[2]] = "flat" THEN "paged" ELSE "flat"
      mem == IF new THEN <<>> ELSE s.mem
      scrn == IF new THEN e.op[3] ELSE s.scrn IN
  Res([s EXCEPT !.mem = mem, !.scrn = scrn,
                !.kinds = IF new THEN <<want>> ELSE Append(@, want)],
      When(e.kind # (IF want = "flat" THEN "FlatMemoryMap" ELSE "MemoryMap")
           \/ e.scrn # scrn \/ e.n # 8192, <<"C19", "ViewKind">>)
      \cup When({<<x[1], x[2]>> : x \in Range(e.nonzero)}
                  # {<<c, mem[c]>> : c \in DOMAIN mem}, <<"C19", "ViewContents">>))

Write(s, e) ==
  LET k == e.op[1]
      cell == IF k = "flat" THEN e.op[3] - 8192 * s.scrn
              ELSE (e.op[3] - 32 * s.scrn) * 256 + e.op[4]
      val == e.op[Len(e.op)]
      refused == k = "refused"
      want == IF refused \/ Get(s.mem, cell) = val THEN {} ELSE {<<cell, val>>} IN
  Res([s EXCEPT !.mem = IF refused THEN @ ELSE Put(@, cell, val)],
      When(refused /\ e.exc # "ValueError", <<"C19", "OutOfRangeAccepted">>)
      \cup When(~refused /\ e.exc # "", <<"C19", "WriteRefused">>)
      \cup When(Len(e.d) # Len(s.kinds)
                \/ \E i \in 1..Len(e.d) : {<<x[1], x[2]>> : x \in Range(e.d[i])} # want,
                <<"C19", "ViewsDisagree">>))

Step(s, e) ==
  CASE e.ev = "Row" -> Row(s, e)
    [] e.ev = "Page" -> Page(s, e)
    [] e.ev = "CoordCount" -> Res(s, When(e.n # 2 * 192 * 40, <<"C19", "CoordCount">>))
    [] e.ev = "Coords" -> Coords(s, e)
    [] e.ev = "View" -> View(s, e)
    [] e.ev = "Write" -> Write(s, e)
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})

Final(s) == When(s.rows # 192 \/ s.pages # 32 \/ s.coords # 2 * 192 * 40,
                 <<"X", "Incomplete">>)

VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
