------------------------------- MODULE Frames -------------------------------
(* Video frames on their way to the encoder.  A conversion thread decodes    *)
(* and converts frame after frame and puts them into a bounded queue; the    *)
(* encoder takes them out.  The end of the video, and a failure, travel      *)
(* through the same queue.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxLen,   \* frames in the video, at most
          Cap       \* places in the queue
VARIABLES len,      \* frames in the video
          fault,    \* the frame that cannot be decoded or converted, or -1
          dec,      \* next frame to decode
          hold,     \* what the thread has in its hands: Nothing, a frame, End
          q,        \* the queue
          failed,   \* the thread met the fault
          out,      \* frames delivered
          cons      \* the encoder: "on", "ended", "failed", "gone"
fvars == <<len, fault, dec, hold, q, failed, out, cons>>
Nothing == -1
End == -2

Init == /\ len \in 0..MaxLen /\ fault \in -1..(len - 1)
        /\ dec = 0 /\ hold = Nothing /\ q = <<>> /\ failed = FALSE
        /\ out = <<>> /\ cons = "on"
Convert == /\ hold = Nothing /\ dec < len /\ dec # fault /\ ~failed
           /\ hold' = dec /\ dec' = dec + 1
           /\ UNCHANGED <<len, fault, q, failed, out, cons>>
Fail == /\ hold = Nothing /\ dec = fault /\ ~failed
        /\ failed' = TRUE /\ hold' = End
        /\ UNCHANGED <<len, fault, dec, q, out, cons>>
Eof == /\ hold = Nothing /\ dec = len /\ ~failed
       /\ hold' = End /\ dec' = len + 1
       /\ UNCHANGED <<len, fault, q, failed, out, cons>>
Put == /\ hold # Nothing /\ Len(q) < Cap
       /\ q' = Append(q, hold) /\ hold' = Nothing
       /\ UNCHANGED <<len, fault, dec, failed, out, cons>>
Take == /\ cons = "on" /\ q # <<>>
        /\ q' = Tail(q)
        /\ IF Head(q) = End
           THEN cons' = (IF failed THEN "failed" ELSE "ended") /\ UNCHANGED out
           ELSE out' = Append(out, Head(q)) /\ UNCHANGED cons
        /\ UNCHANGED <<len, fault, dec, hold, failed>>
\* The audio has ended before the video.
Leave == /\ cons = "on" /\ cons' = "gone"
         /\ UNCHANGED <<len, fault, dec, hold, q, failed, out>>
Over == (cons # "on") /\ UNCHANGED fvars
Next == Convert \/ Fail \/ Eof \/ Put \/ Take \/ Leave \/ Over
Work == Convert \/ Fail \/ Eof \/ Put \/ Take
Spec == Init /\ [][Next]_fvars /\ WF_fvars(Work)

--------------------------------------------------------------------------
\* C27
Good == IF fault >= 0 THEN fault ELSE len     \* frames that can be delivered
InOrder == out = [i \in 1..Len(out) |-> i - 1] /\ Len(out) <= Good
Bounded == dec - Len(out) <= Cap + 2
Complete == cons \in {"ended", "failed"} => Len(out) = Good
Surfaces == /\ cons = "ended" => fault = -1
            /\ cons = "failed" => fault >= 0
Nothing_waits == <>(cons # "on")
============================================================================
