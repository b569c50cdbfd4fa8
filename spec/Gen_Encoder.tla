---------------------------- MODULE Gen_Encoder -----------------------------
(* Schedules of the encoder: frames arrive, banks switch, and so much work   *)
(* is asked for in between.  Every schedule ends by draining the last target *)
(* in both banks.                                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Dual, Lingers   \* Lingers: how many passes may be cut short in a row
VARIABLES hist, bank, done
Pick(S) == {RandomElement(S)}
Kinds == {"sparse", "runs", "alike", "same", "back", "near", "edges", "close"}
Work == {<<"work", n>> : n \in {1, 2, 3, 10, 40}}
Init == hist = <<<<"target", "runs">>, <<"pass", 0>>, <<"work", 5>>>> /\ bank = 0 /\ done = FALSE
NewFrame == \E k \in Pick(Kinds), w \in Pick(Work) :
  hist' = hist \o <<<<"target", k>>, <<"pass", bank>>, w>> /\ UNCHANGED bank
Switch == Dual /\ bank' = 1 - bank /\ \E w \in Pick(Work) :
  hist' = hist \o <<<<"pass", bank'>>, w>>
More == \E w \in Pick(Work) : hist' = Append(hist, w) /\ UNCHANGED bank
\* The same frame again and again, with hardly any time for it: what is not
\* sent becomes ever more urgent.
Linger == \E n \in Pick(Lingers), b \in Pick(IF Dual THEN 0..1 ELSE {0}), w \in Pick({1, 2}) :
  hist' = hist \o <<<<"target", "stark">>, <<"linger", b, n, w>>>> /\ bank' = b
DrainAll == hist' = Append(hist, <<"settle">>) /\ UNCHANGED bank
\* A frame all of which is sent before the next one arrives
Whole == \E k \in Pick({"close", "near"}) :
  hist' = hist \o <<<<"target", k>>, <<"settle">>>> /\ UNCHANGED bank
Next == /\ Len(hist) < MaxOps /\ (NewFrame \/ Switch \/ More \/ DrainAll \/ Whole \/ (Lingers # {} /\ Linger)) /\ UNCHANGED done
Emit == /\ Len(hist) >= MaxOps /\ ~done /\ done' = TRUE
        /\ PrintT(<<"BEHAVIOUR", ToJson(Append(hist, <<"settle">>))>>) /\ UNCHANGED <<hist, bank>>
GenSpec == Init /\ [][Next \/ Emit]_<<hist, bank, done>>
===========================================================================
