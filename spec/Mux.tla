-------------------------------- MODULE Mux --------------------------------
(* The transport layer of a ][-Vision stream: how player operations are laid *)
(* out in 2 KB TCP frames, when the stream ends, and which memory bank each  *)
(* frame's stores go to.                                                     *)
(*                                                                           *)
(* The state is a record, the transitions are operators on it: this module's *)
(* own behaviours (checked exhaustively at small sizes, and inductively at   *)
(* the real ones by Apalache in MuxInd.tla) and the trace specification      *)
(* (StreamTrace.tla, at the real sizes) are built from the same operators.   *)
EXTENDS Naturals, Sequences

CONSTANTS
  Frame,        \* bytes in a TCP frame            (2048)
  OpLen,        \* bytes in a header or tick op    (7)
  AckLen,       \* bytes in an ACK                 (4)
  TermLen,      \* bytes in a terminate op         (2)
  Limits,       \* size limits to consider, 0 = none
  Supplies      \* lengths of input, in samples, to consider

ASSUME /\ (Frame - AckLen) % OpLen = 0
       /\ TermLen < OpLen /\ AckLen < Frame

--------------------------------------------------------------------------
(* Pure layout facts *)

Socket(p) == p % Frame
AckDue(p) == Socket(p) = Frame - AckLen
LimitHit(p, lim) == lim > 0 /\ p >= lim
PadTo(p) == p + (Frame - Socket(p))
NextBank(d, b) == IF d THEN 1 - b ELSE 0

--------------------------------------------------------------------------
VARIABLES
  dual,         \* does the mode use both banks?
  limit,        \* requested size limit, 0 = none
  supply,       \* how many samples the inputs are good for
  pos,          \* bytes emitted
  bank,         \* 0 main, 1 aux: where stores go
  phase,        \* "start", "run", "term", "pad", "end"
  used,         \* samples consumed
  log           \* <<kind, start, end, bank>> of everything emitted

vars == <<dual, limit, supply, pos, bank, phase, used, log>>

Init == /\ dual \in BOOLEAN /\ limit \in Limits /\ supply \in Supplies
        /\ pos = 0 /\ bank = 0 /\ phase = "start" /\ used = 0 /\ log = <<>>

Put(kind, len) == /\ log' = Append(log, <<kind, pos, pos + len, bank'>>)
                  /\ pos' = pos + len
                  /\ UNCHANGED <<dual, limit, supply>>

Header == /\ phase = "start" /\ phase' = "run"
          /\ UNCHANGED <<bank, used>> /\ Put("header", OpLen)

Tick == /\ phase = "run" /\ ~AckDue(pos)
        /\ ~LimitHit(pos, limit) /\ used < supply
        /\ used' = used + 1
        /\ UNCHANGED <<bank, phase>> /\ Put("tick", OpLen)

Ack == /\ phase = "run" /\ AckDue(pos)
       /\ bank' = NextBank(dual, bank)
       /\ Put("ack", AckLen) /\ UNCHANGED <<phase, used>>

Terminate == /\ phase = "run" /\ ~AckDue(pos)
             /\ LimitHit(pos, limit) \/ used = supply
             /\ phase' = "pad"
             /\ UNCHANGED <<bank, used>> /\ Put("term", TermLen)

Pad == /\ phase = "pad" /\ phase' = "end"
       /\ UNCHANGED <<bank, used>> /\ Put("zero", PadTo(pos) - pos)

Next == Header \/ Tick \/ Ack \/ Terminate \/ Pad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
(* What the layout guarantees *)

TypeOK == /\ pos \in Nat /\ bank \in {0, 1} /\ used \in 0..supply
          /\ phase \in {"start", "run", "pad", "end"}

\* The slot where an ACK is due is reached exactly: nothing can straddle it.
NoStraddle ==
  \A i \in 1..Len(log) :
    LET e == log[i] IN
      e[1] \in {"header", "tick", "term"} =>
        (e[2] \div Frame = (e[3] - 1) \div Frame
         /\ Socket(e[3] - 1) < Frame - AckLen)

AckPlacement ==
  \A i \in 1..Len(log) :
    log[i][1] = "ack" => Socket(log[i][2]) = Frame - AckLen /\ Socket(log[i][3]) = 0

\* Every completed frame but the last ends with an ACK.
AckEveryFrame ==
  Len(SelectSeq(log, LAMBDA e : e[1] = "ack"))
    = (IF phase = "end" THEN pos \div Frame - 1 ELSE pos \div Frame)

\* Frame f (from 0) is stored into bank f mod 2 (or always main).
Steering ==
  \A i \in 1..Len(log) :
    log[i][1] = "tick" => log[i][4] = IF dual THEN (log[i][2] \div Frame) % 2 ELSE 0

WholeFrames == phase = "end" => pos % Frame = 0
OneTerminate == Len(SelectSeq(log, LAMBDA e : e[1] = "term"))
                  = (IF phase \in {"pad", "end"} THEN 1 ELSE 0)
TerminateLast == \A i \in 1..Len(log) :
                   log[i][1] = "term" => \A j \in i+1..Len(log) : log[j][1] = "zero"
\* No operation starts at or after the limit; stopping is never premature.
LimitRespected ==
  \A i \in 1..Len(log) :
    /\ log[i][1] = "tick" => ~LimitHit(log[i][2], limit)
    /\ log[i][1] = "term" => (LimitHit(log[i][2], limit) \/ used = supply)
PadNeeded == \A i \in 1..Len(log) : log[i][1] = "zero" => log[i][3] > log[i][2]

NoStuck == phase = "end" \/ ENABLED Next
Ends == <>(phase = "end")
===========================================================================
