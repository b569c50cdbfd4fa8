----------------------------- MODULE Gen_Packed -----------------------------
(* Histories of stores, to be replayed into the code.  Offsets crowd around  *)
(* a few columns and the ends of pages, so that stores meet in each other's  *)
(* context.                                                                  *)
EXTENDS Packed, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, home, done
Pick(S) == {RandomElement(S)}
Homes == {0, 1, 2, 62, 63, 118, 126, 252, 253}
Near(h) == {o \in (h - 2)..(h + 5) : o \in 0..255} \cup {0, 255}
Pages == {0, 1, 17, 30, 31}
Work ==
  /\ Len(hist) < MaxOps
  /\ \E p \in Pick(Pages), o \in Pick(Near(home) \cup {RandomElement(0..255)}),
        b \in Pick(Banks),
        v \in Pick({0, 127, 128, 255, 96, 224, 3, 131, RandomElement(0..255),
                    RandomElement(0..255)}) :
       \* the model is of one page; the others are like it
       /\ (IF p = 0 THEN Store(b, o, v) ELSE UNCHANGED pvars)
       /\ hist' = Append(hist, <<b, p, o, v>>)
  /\ UNCHANGED <<done, home>>
Emit == /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE
        /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ UNCHANGED <<pvars, hist, home>>
GenSpec == /\ Init /\ hist = <<>> /\ home \in Homes /\ done = FALSE
           /\ [][Work \/ Emit]_<<pvars, hist, home, done>>
===========================================================================
