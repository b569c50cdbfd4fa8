------------------------------ MODULE Geometry ------------------------------
(* Where hi-res screen bytes live in memory, and the two views of a screen   *)
(* page: flat (8192 bytes) and paged (32 pages of 256).                      *)
EXTENDS Integers, Sequences, FiniteSets

Rows == 0..191
Cols == 0..39
\* Address of the first byte of a row of screen page 1 or 2: the rows are
\* interleaved by the low three bits, then the middle three, then thirds.
BaseAddr(y, scrn) ==
  8192 * scrn + 1024 * (y % 8) + 128 * ((y \div 8) % 8) + 40 * (y \div 64)
Addr(y, x, scrn) == BaseAddr(y, scrn) + x
\* Page (0..31 within the screen page) and offset of a byte.
PageOf(y, x) == (Addr(y, x, 1) \div 256) - 32
OffOf(y, x) == Addr(y, x, 1) % 256
\* The inverse, from the address layout.
Hole(off) == off % 128 >= 120
RowOf(p, o) == 64 * ((o % 128) \div 40) + 8 * (2 * (p % 4) + o \div 128) + p \div 4
ColOf(o) == (o % 128) % 40

--------------------------------------------------------------------------
(* Views of one screen page.  mem is the memory; every view ever made of it  *)
(* shows it.                                                                 *)
CONSTANTS Scrns,       \* screen pages {1, 2}
          Cells,       \* cell indices (0..8191) to use
          Values, MaxOps
VARIABLES scrn, mem, views, hist
gvars == <<scrn, mem, views, hist>>

GInit == /\ scrn \in Scrns
         /\ mem = [c \in Cells |-> 0]
         /\ \E k \in {"flat", "paged"} : views = <<k>> /\ hist = <<<<"new", k, scrn>>>>

Log(e) == hist' = Append(hist, e)
WriteFlat(v, c, val) ==
  /\ views[v] = "flat"
  /\ mem' = [mem EXCEPT ![c] = val]
  /\ Log(<<"flat", v, 8192 * scrn + c, val>>) /\ UNCHANGED <<scrn, views>>
WritePaged(v, c, val) ==
  /\ views[v] = "paged"
  /\ mem' = [mem EXCEPT ![c] = val]
  /\ Log(<<"paged", v, 32 * scrn + c \div 256, c % 256, val>>)
  /\ UNCHANGED <<scrn, views>>
\* An address outside the screen page is refused and nothing changes.
Refused(v, a) ==
  /\ views[v] = "flat"
  /\ Log(<<"refused", v, a, 1>>) /\ UNCHANGED <<scrn, mem, views>>
Convert(v) ==
  /\ Len(views) < 4
  /\ views' = Append(views, IF views[v] = "flat" THEN "paged" ELSE "flat")
  /\ Log(<<"convert", v>>) /\ UNCHANGED <<scrn, mem>>

GNext == /\ Len(hist) < MaxOps
         /\ \E v \in 1..Len(views) :
              \/ \E c \in Cells, val \in Values : WriteFlat(v, c, val) \/ WritePaged(v, c, val)
              \/ \E a \in {0, 8192 * scrn - 1, 8192 * scrn + 8192, 65535} : Refused(v, a)
              \/ Convert(v)
GSpec == GInit /\ [][GNext]_gvars

\* Flat and paged coordinates of a cell name the same address.
Coherent == \A c \in Cells : (32 * scrn + c \div 256) * 256 + (c % 256) = 8192 * scrn + c
\* A write changes one cell at most; a refusal none.
OneCell == [][\A c \in Cells : mem'[c] # mem[c] =>
                \A d \in Cells \ {c} : mem'[d] = mem[d]]_gvars

--------------------------------------------------------------------------
(* The layout, over all visible bytes.                                       *)
Bijective ==
  /\ Cardinality({Addr(y, x, 1) : y \in Rows, x \in Cols}) = 192 * 40
  /\ \A y \in Rows, x \in Cols :
       /\ Addr(y, x, 1) \in 8192..16383 /\ Addr(y, x, 2) = Addr(y, x, 1) + 8192
       /\ RowOf(PageOf(y, x), OffOf(y, x)) = y
       /\ ColOf(OffOf(y, x)) = x
       /\ ~Hole(OffOf(y, x))
HolesAreTheRest ==
  Cardinality({<<p, o>> \in (0..31) \X (0..255) : Hole(o)}) = 512
===========================================================================
