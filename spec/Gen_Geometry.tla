---------------------------- MODULE Gen_Geometry ----------------------------
(* Behaviours of the memory views, to be replayed into the code. *)
EXTENDS Geometry, TLC, Json
VARIABLE done
GenCells == {0, 1, 119, 120, 127, 128, 255, 256, 257, 511, 1023, 1024, 4095, 4096,
             5000, 7777, 8063, 8064, 8184, 8190, 8191}
Pick(S) == {RandomElement(S)}
Work == /\ Len(hist) < MaxOps
        /\ \E v \in 1..Len(views) :
             \/ \E i \in 1..3, c \in Pick(GenCells), val \in Pick(Values) :
                  WriteFlat(v, c, val) \/ WritePaged(v, c, val)
             \/ \E a \in Pick({0, 8192 * scrn - 1, 8192 * scrn + 8192, 65535}) : Refused(v, a)
             \/ Convert(v)
        /\ UNCHANGED done
Emit == /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE
        /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ UNCHANGED gvars
GenSpec == GInit /\ done = FALSE /\ [][Work \/ Emit]_<<gvars, done>>
===========================================================================
