------------------------------- MODULE Regions -------------------------------
(* Memory divided into regions with access rules (simulator/memory.py).      *)
(*                                                                           *)
(* A layout is a sequence of disjoint regions                                *)
(*   [lo, hi, rw, rint, wint, entries]                                       *)
(* rw: may be written; rint/wint: an interceptor sees reads/writes; entries: *)
(* addresses at which execution from elsewhere may begin.  What no region    *)
(* claims is plain memory.                                                   *)
(*                                                                           *)
(* Addresses are abstract here; RegionsTrace uses the same operators on the  *)
(* real 16-bit ones.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Addrs,        \* 0..n
          Layouts,      \* the layouts explored
          Values,       \* bytes; RTS is one of them
          RTS

VARIABLES layout, mem, seen, out
rvars == <<layout, mem, seen, out>>

\* Which region claims a: its index, or 0.
RegionOf(lay, a) ==
  IF \E i \in DOMAIN lay : lay[i].lo <= a /\ a <= lay[i].hi
  THEN CHOOSE i \in DOMAIN lay : lay[i].lo <= a /\ a <= lay[i].hi ELSE 0

\* What a write may do: it is refused, naming region i; or it is carried out.
WriteRefused(lay, a) == LET i == RegionOf(lay, a) IN i # 0 /\ ~lay[i].rw
SeesWrite(lay, a) == LET i == RegionOf(lay, a) IN i # 0 /\ lay[i].wint
SeesRead(lay, a) == LET i == RegionOf(lay, a) IN i # 0 /\ lay[i].rint

\* Execution moves from the instruction at old, whose opcode is opc, to new.
IsEntry(lay, a) == \E i \in DOMAIN lay : a \in lay[i].entries
TransferRefused(lay, old, opc, new) ==
  /\ RegionOf(lay, old) # RegionOf(lay, new)
  /\ opc # RTS /\ ~IsEntry(lay, new)

Init == /\ layout \in Layouts
        /\ mem = [a \in Addrs |-> CHOOSE v \in Values : TRUE]
        /\ seen = <<>> /\ out = <<"none">>

Write(a, v) ==
  /\ LET i == RegionOf(layout, a) IN
       IF WriteRefused(layout, a)
       THEN out' = <<"denied", i, a>> /\ UNCHANGED mem
       ELSE out' = <<"ok">> /\ mem' = [mem EXCEPT ![a] = v]
  /\ seen' = IF SeesWrite(layout, a) THEN <<a, v>> ELSE <<>>
  /\ UNCHANGED layout

Read(a) ==
  /\ seen' = IF SeesRead(layout, a) THEN <<a>> ELSE <<>>
  /\ out' = <<"value", mem[a]>>
  /\ UNCHANGED <<layout, mem>>

Transfer(old, new) ==
  /\ out' = IF TransferRefused(layout, old, mem[old], new)
            THEN <<"refused", RegionOf(layout, new), old, new>>
            ELSE IF IsEntry(layout, new) THEN <<"handled", new>> ELSE <<"ok">>
  /\ seen' = <<>>
  /\ UNCHANGED <<layout, mem>>

Next == \/ \E a \in Addrs, v \in Values : Write(a, v)
        \/ \E a \in Addrs : Read(a)
        \/ \E a, b \in Addrs : Transfer(a, b)
Spec == Init /\ [][Next]_rvars

\* --- what follows ---------------------------------------------------------
\* Read-only memory keeps what it had.
Protected ==
  [][\A a \in Addrs : LET i == RegionOf(layout, a) IN
       (i # 0 /\ ~layout[i].rw) => mem'[a] = mem[a]]_rvars
\* Only the addressed cell changes, and a refusal changes nothing.
Quiet ==
  [][/\ Cardinality({a \in Addrs : mem'[a] # mem[a]}) <= 1
     /\ out'[1] # "ok" => mem' = mem]_rvars
\* Nobody gets into a region by the side door: a transfer that is let through
\* stays in its region, is a return, or is at a declared entry point, and an
\* entry point lies in its region or it would guard nothing.
Guarded ==
  \A old, new \in Addrs :
    LET r == RegionOf(layout, new) IN
    (r # 0 /\ ~TransferRefused(layout, old, mem[old], new)) =>
      \/ RegionOf(layout, old) = r \/ mem[old] = RTS
      \/ new \in layout[r].entries
\* Adjacent regions do not lend each other their rights.
Sharp ==
  \A i \in DOMAIN layout : \A a \in {layout[i].lo, layout[i].hi} :
    RegionOf(layout, a) = i
==============================================================================
