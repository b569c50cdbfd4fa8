----------------------------- MODULE Gen_Regions -----------------------------
(* Layouts and histories of accesses, over abstract addresses 0..N-1 which   *)
(* the check spreads over the real address space, keeping their order.       *)
(* Transfers leave declared memory only by returning: what else execution    *)
(* may do outside all regions is not said.                                   *)
EXTENDS Regions, TLC, Json
CONSTANTS N, MaxOps
VARIABLES hist, done
gvars == <<rvars, hist, done>>
Pick(S) == {RandomElement(S)}
B(x) == RandomElement({TRUE, FALSE})
Byte(x) == RandomElement({0, 96, 255, 76, RandomElement(0..255)})

RECURSIVE Carve(_, _)
\* Regions from address a upwards, at most n of them.
Carve(a, n) ==
  LET lo == a + RandomElement({0, 0, 1, 2})
      hi == lo + RandomElement({0, 1, 2, 3}) IN
  IF n = 0 \/ hi >= N THEN <<>>
  ELSE <<[lo |-> lo, hi |-> hi, rw |-> B(a), rint |-> B(a), wint |-> B(a),
          entries |-> {x \in lo..hi : RandomElement(1..3) = 1}]>>
       \o Carve(hi + 1, n - 1)

\* The addresses a history is about: one, its neighbours, now and then any.
GInit == /\ layout = <<>> /\ mem = [a \in Addrs |-> 0] /\ seen = <<>>
         /\ out = <<"none">> /\ hist = <<>> /\ done = FALSE
Begin == /\ layout = <<>> /\ hist = <<>>
         /\ \E lay \in {Carve(0, RandomElement(1..5))},
               m \in {[a \in Addrs |-> Byte(a)]} :
              /\ layout' = lay /\ mem' = m
              /\ hist' = <<<<"layout", lay, [i \in 1..N |-> m[i - 1]]>>>>
         /\ UNCHANGED <<seen, out, done>>
May(old, new) == mem[old] = RTS \/ RegionOf(layout, new) # 0
                 \/ RegionOf(layout, old) = 0
Work ==
  /\ hist # <<>> /\ Len(hist) < MaxOps /\ UNCHANGED done
  /\ \/ \E a \in Pick(Addrs), v \in {Byte(Len(hist))} :
          Write(a, v) /\ hist' = Append(hist, <<"write", a, v>>)
     \/ \E a \in Pick(Addrs) : Read(a) /\ hist' = Append(hist, <<"read", a>>)
     \/ \E a \in Pick(Addrs), b \in Pick(Addrs) :
          May(a, b) /\ Transfer(a, b) /\ hist' = Append(hist, <<"transfer", a, b>>)
Emit == /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE
        /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ UNCHANGED <<rvars, hist>>
GenSpec == GInit /\ [][Begin \/ Work \/ Emit]_gvars
==============================================================================
