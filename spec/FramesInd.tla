----------------------------- MODULE FramesInd ------------------------------
(* Frames for videos of any length and queues of any capacity.  As frames    *)
(* are delivered in order the queue holds an interval of them, taken..put-1, *)
(* perhaps with the end marker behind; so two counters stand for it, and     *)
(* what is taken is what was put at that place.                              *)
(*   Init => Inv;  Inv /\ Next => Inv'        (Apalache)                     *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  cap,
  \* @type: Int;
  len,
  \* @type: Int;
  fault,
  \* @type: Int;
  dec,
  \* @type: Int;
  hold,
  \* @type: Int;
  put,
  \* @type: Bool;
  marker,
  \* @type: Int;
  taken,
  \* @type: Bool;
  failed,
  \* @type: Str;
  cons,
  \* @type: Int;
  got

Nothing == -1
End == -2

Init == /\ cap \in Int /\ cap > 0 /\ len \in Int /\ len >= 0
        /\ fault \in Int /\ fault >= -1 /\ fault < len
        /\ dec = 0 /\ hold = Nothing /\ put = 0 /\ marker = FALSE /\ taken = 0
        /\ failed = FALSE /\ cons = "on" /\ got = Nothing
Held == put - taken + (IF marker THEN 1 ELSE 0)
Convert == /\ hold = Nothing /\ dec < len /\ dec # fault /\ ~failed
           /\ hold' = dec /\ dec' = dec + 1 /\ got' = Nothing
           /\ UNCHANGED <<cap, len, fault, put, marker, taken, failed, cons>>
Fail == /\ hold = Nothing /\ dec = fault /\ ~failed
        /\ failed' = TRUE /\ hold' = End /\ got' = Nothing
        /\ UNCHANGED <<cap, len, fault, dec, put, marker, taken, cons>>
Eof == /\ hold = Nothing /\ dec = len /\ ~failed
       /\ hold' = End /\ dec' = len + 1 /\ got' = Nothing
       /\ UNCHANGED <<cap, len, fault, put, marker, taken, failed, cons>>
PutFrame == /\ hold >= 0 /\ Held < cap
            /\ put' = put + 1 /\ hold' = Nothing /\ got' = Nothing
            /\ UNCHANGED <<cap, len, fault, dec, marker, taken, failed, cons>>
PutEnd == /\ hold = End /\ Held < cap
          /\ marker' = TRUE /\ hold' = Nothing /\ got' = Nothing
          /\ UNCHANGED <<cap, len, fault, dec, put, taken, failed, cons>>
Take == /\ cons = "on" /\ taken < put
        /\ got' = taken /\ taken' = taken + 1
        /\ UNCHANGED <<cap, len, fault, dec, hold, put, marker, failed, cons>>
TakeEnd == /\ cons = "on" /\ taken = put /\ marker
           /\ marker' = FALSE /\ got' = End
           /\ cons' = (IF failed THEN "failed" ELSE "ended")
           /\ UNCHANGED <<cap, len, fault, dec, hold, put, taken, failed>>
Leave == /\ cons = "on" /\ cons' = "gone" /\ got' = Nothing
         /\ UNCHANGED <<cap, len, fault, dec, hold, put, marker, taken, failed>>
Next == Convert \/ Fail \/ Eof \/ PutFrame \/ PutEnd \/ Take \/ TakeEnd \/ Leave

--------------------------------------------------------------------------
Good == IF fault >= 0 THEN fault ELSE len
Over == failed \/ dec = len + 1        \* the thread has no more frames
Shape ==
  /\ cap > 0 /\ len >= 0 /\ fault >= -1 /\ fault < len
  /\ 0 <= taken /\ taken <= put /\ hold >= End
  /\ 0 <= dec /\ dec <= len + 1 /\ (fault >= 0 => dec <= fault)
  /\ (failed => dec = fault)
  /\ Held <= cap
  /\ put = (IF hold >= 0 THEN dec - 1 ELSE IF dec = len + 1 THEN len ELSE dec)
  /\ (hold >= 0 => hold = dec - 1 /\ dec <= len)
  /\ (hold = End => Over /\ ~marker /\ cons \in {"on", "gone"})
  /\ (marker => Over /\ hold = Nothing)
  /\ (cons \in {"ended", "failed"} => Over /\ ~marker /\ hold = Nothing)
  /\ (Over => hold = End \/ marker \/ cons # "on")
  /\ cons \in {"on", "ended", "failed", "gone"}
\* What is delivered is the next frame, and never one past a fault.
InOrder == (got >= 0 => got = taken - 1) /\ taken <= Good
\* The thread is never more than the queue and what it holds ahead.
Bounded == put - taken <= cap /\ dec - taken <= cap + 2
Complete == cons \in {"ended", "failed"} => taken = Good
Surfaces == /\ cons = "ended" => fault = -1
            /\ cons = "failed" => fault >= 0
\* Somebody can always go on until the encoder is done.
NoDeadlock == cons = "on" =>
                \/ (hold = Nothing /\ ~Over)
                \/ (hold # Nothing /\ Held < cap)
                \/ taken < put \/ marker
Inv == Shape /\ InOrder /\ Bounded /\ Complete /\ Surfaces /\ NoDeadlock
Any == /\ cap \in Int /\ len \in Int /\ fault \in Int /\ dec \in Int /\ hold \in Int
       /\ put \in Int /\ marker \in BOOLEAN /\ taken \in Int /\ failed \in BOOLEAN
       /\ cons \in {"on", "ended", "failed", "gone"} /\ got \in Int
       /\ Inv
Never == len < -1
=============================================================================
