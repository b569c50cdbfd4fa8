------------------------------- MODULE Player -------------------------------
(* The player as a state machine over a stream of operations: connecting,    *)
(* flow control with the card's receive buffer, pausing and quitting.        *)
(*                                                                           *)
(* Positions count stream bytes.  The environment accepts or refuses         *)
(* connections, delivers bytes whenever the buffer has room, and presses     *)
(* keys.  PlayerCode.tla checks that the assembled program does this.        *)
EXTENDS Naturals

CONSTANTS Frame, HeaderLen, OpLen, AckLen, NFrames, Buf, Attempts, HeaderMin

ASSUME /\ (Frame - AckLen) % OpLen = 0 /\ HeaderLen = OpLen
       /\ Buf >= Frame /\ HeaderMin >= HeaderLen /\ Frame >= HeaderMin

VARIABLES ph, tries, pos, arrived, freed, key
pvars == <<ph, tries, pos, arrived, freed, key>>

Total == NFrames * Frame
Init == /\ ph = "connecting" /\ tries = 0 /\ key = FALSE
        /\ pos = 0 /\ arrived = 0 /\ freed = 0

--------------------------------------------------------------------------
(* Environment *)
Accept == /\ ph = "connecting" /\ ph' = "header"
          /\ UNCHANGED <<tries, pos, arrived, freed, key>>
Refuse == /\ ph = "connecting" /\ tries' = tries + 1
          /\ ph' = IF tries' = Attempts THEN "error" ELSE ph
          /\ UNCHANGED <<pos, arrived, freed, key>>
Connected == ph \notin {"connecting", "error"}
Arrive == /\ Connected
          /\ \E n \in 1..Buf : /\ arrived + n <= Total
                               /\ arrived + n - freed <= Buf
                               /\ arrived' = arrived + n
          /\ UNCHANGED <<ph, tries, pos, freed, key>>
Press == /\ ~key /\ ph # "done" /\ key' = TRUE
         /\ UNCHANGED <<ph, tries, pos, arrived, freed>>

--------------------------------------------------------------------------
(* Player *)
Header == /\ ph = "header" /\ arrived >= HeaderMin
          /\ pos' = HeaderLen /\ ph' = "check"
          /\ UNCHANGED <<tries, arrived, freed, key>>
Buffered == arrived - freed >= Frame
Go == /\ ph = "check" /\ Buffered /\ ~key /\ ph' = "op"
      /\ UNCHANGED <<tries, pos, arrived, freed, key>>
Pause == /\ ph = "check" /\ Buffered /\ key
         /\ ph' = "paused" /\ key' = FALSE
         /\ UNCHANGED <<tries, pos, arrived, freed>>
Resume == /\ ph = "paused" /\ key
          /\ ph' = "op" /\ key' = FALSE
          /\ UNCHANGED <<tries, pos, arrived, freed>>
AckHere == pos % Frame = Frame - AckLen
LastOp == pos = Total - Frame + HeaderLen
Op == /\ ph = "op" /\ ~AckHere /\ ~LastOp
      /\ pos' = pos + OpLen
      /\ UNCHANGED <<ph, tries, arrived, freed, key>>
Ack == /\ ph = "op" /\ AckHere
       /\ pos' = pos + AckLen /\ freed' = freed + Frame /\ ph' = "check"
       /\ UNCHANGED <<tries, arrived, key>>
Terminate == /\ ph = "op" /\ LastOp /\ ph' = "term" /\ key' = FALSE
             /\ UNCHANGED <<tries, pos, arrived, freed>>
Quit == /\ ph = "term" /\ key /\ ph' = "done"
        /\ UNCHANGED <<tries, pos, arrived, freed, key>>

Play == Header \/ Go \/ Pause \/ Resume \/ Op \/ Ack \/ Terminate \/ Quit
Next == Accept \/ Refuse \/ Arrive \/ Press \/ Play
Spec == /\ Init /\ [][Next]_pvars
        /\ WF_pvars(Play) /\ WF_pvars(Arrive) /\ WF_pvars(Press)
        /\ WF_pvars(Accept \/ Refuse)

--------------------------------------------------------------------------
TypeOK == /\ ph \in {"connecting", "error", "header", "check", "op", "paused",
                     "term", "done"}
          /\ tries \in 0..Attempts /\ key \in BOOLEAN
\* Never read what has not arrived; the buffer never overflows; whole frames
\* are given back, and only once read.
Flow == /\ pos <= arrived /\ freed <= pos /\ arrived - freed <= Buf
        /\ freed % Frame = 0 /\ arrived <= Total
\* While operations run, the rest of their frame is in the buffer.
FrameThere == ph = "op" => Buffered /\ pos < freed + Frame
\* With a frame buffered the player is never waiting for data.
NoStall == (ph = "check" /\ Buffered) => ENABLED (Go \/ Pause)
\* Waiting for data means data can come.
NoDeadlock == ph \in {"header", "check"} =>
                (ENABLED Play \/ (arrived < Total /\ arrived - freed < Buf))
ErrorOnlyAfterAll == ph = "error" => tries = Attempts
Finishes == <>(ph \in {"done", "error"})
\* Bytes are consumed in order and never given up.
Monotone == [][pos' >= pos /\ freed' >= freed /\ arrived' >= arrived]_pvars
PausedHolds == [][ph = "paused" => pos' = pos /\ freed' = freed]_pvars
===========================================================================
