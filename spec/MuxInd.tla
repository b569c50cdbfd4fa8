------------------------------ MODULE MuxInd -------------------------------
(* Mux at the real sizes and for streams of any length: the layout's         *)
(* guarantees follow from an inductive invariant, which Apalache checks.     *)
(* The log is replaced by its last entry: what Mux says of every entry is    *)
(* said here of each as it is made.                                          *)
(*   Init => Inv;  Inv /\ Next => Inv'                                       *)
EXTENDS Integers

Frame == 2048
OpLen == 7
AckLen == 4
TermLen == 2

VARIABLES
  \* @type: Bool;
  dual,
  \* @type: Int;
  limit,
  \* @type: Int;
  supply,
  \* @type: Int;
  pos,
  \* @type: Int;
  bank,
  \* @type: Str;
  phase,
  \* @type: Int;
  used,
  \* @type: Int;
  acks,
  \* @type: Int;
  terms,
  \* @type: { kind: Str, from: Int, to: Int, bank: Int };
  last

Socket(p) == p % Frame
AckDue(p) == Socket(p) = Frame - AckLen
LimitHit(p, lim) == lim > 0 /\ p >= lim
PadTo(p) == p + (Frame - Socket(p))
NextBank(d, b) == IF d THEN 1 - b ELSE 0

Init == /\ dual \in BOOLEAN /\ limit \in Nat /\ supply \in Nat
        /\ pos = 0 /\ bank = 0 /\ phase = "start" /\ used = 0
        /\ acks = 0 /\ terms = 0
        /\ last = [kind |-> "none", from |-> 0, to |-> 0, bank |-> 0]

Put(kind, len) == /\ last' = [kind |-> kind, from |-> pos, to |-> pos + len, bank |-> bank']
                  /\ pos' = pos + len
                  /\ acks' = acks + (IF kind = "ack" THEN 1 ELSE 0)
                  /\ terms' = terms + (IF kind = "term" THEN 1 ELSE 0)
                  /\ UNCHANGED <<dual, limit, supply>>
Header == /\ phase = "start" /\ phase' = "run"
          /\ UNCHANGED <<bank, used>> /\ Put("header", OpLen)
Tick == /\ phase = "run" /\ ~AckDue(pos)
        /\ ~LimitHit(pos, limit) /\ used < supply
        /\ used' = used + 1
        /\ UNCHANGED <<bank, phase>> /\ Put("tick", OpLen)
Ack == /\ phase = "run" /\ AckDue(pos)
       /\ bank' = NextBank(dual, bank)
       /\ Put("ack", AckLen) /\ UNCHANGED <<phase, used>>
Terminate == /\ phase = "run" /\ ~AckDue(pos)
             /\ (LimitHit(pos, limit) \/ used = supply)
             /\ phase' = "pad"
             /\ UNCHANGED <<bank, used>> /\ Put("term", TermLen)
Pad == /\ phase = "pad" /\ phase' = "end"
       /\ UNCHANGED <<bank, used>> /\ Put("zero", PadTo(pos) - pos)
Next == Header \/ Tick \/ Ack \/ Terminate \/ Pad

--------------------------------------------------------------------------
\* Where operations begin
Slot(p) == Socket(p) <= Frame - AckLen /\ Socket(p) % OpLen = 0
Bank(p) == IF dual THEN (p \div Frame) % 2 ELSE 0
Shape ==
  /\ limit >= 0 /\ supply >= 0 /\ used >= 0 /\ used <= supply
  /\ phase \in {"start", "run", "pad", "end"} /\ bank \in {0, 1} /\ pos >= 0
  /\ last.kind \in {"none", "header", "tick", "ack", "term", "zero"}
  /\ last.to = pos
  /\ phase = "start" => pos = 0 /\ last.kind = "none" /\ bank = 0
  /\ phase = "run" => pos > 0 /\ Slot(pos) /\ bank = Bank(pos)
                      /\ last.kind \in {"header", "tick", "ack"}
  /\ phase = "pad" => last.kind = "term" /\ pos >= TermLen
                      /\ Slot(pos - TermLen) /\ ~AckDue(pos - TermLen)
  /\ phase = "end" => last.kind = "zero" /\ pos > 0
  /\ acks = (IF phase = "end" THEN (pos \div Frame) - 1 ELSE pos \div Frame)
  /\ terms = (IF phase \in {"pad", "end"} THEN 1 ELSE 0)
NoStraddle ==
  last.kind \in {"header", "tick", "term"} =>
    /\ last.from \div Frame = (last.to - 1) \div Frame
    /\ Socket(last.to - 1) < Frame - AckLen
AckPlacement ==
  last.kind = "ack" => Socket(last.from) = Frame - AckLen /\ Socket(last.to) = 0
Steering == last.kind = "tick" => last.bank = Bank(last.from)
Named == last.kind = "ack" => last.bank = Bank(last.to)
WholeFrames == phase = "end" => pos % Frame = 0
LimitRespected ==
  /\ last.kind = "tick" => ~LimitHit(last.from, limit)
  /\ last.kind = "term" => (LimitHit(last.from, limit) \/ used = supply)
PadNeeded == last.kind = "zero" => last.to > last.from
Inv == /\ Shape /\ NoStraddle /\ AckPlacement /\ Steering /\ Named
       /\ WholeFrames /\ LimitRespected /\ PadNeeded
\* Any state at all, for the inductive step
Any == /\ dual \in BOOLEAN /\ limit \in Int /\ supply \in Int /\ pos \in Int
       /\ bank \in Int /\ used \in Int /\ acks \in Int /\ terms \in Int
       /\ phase \in {"start", "run", "pad", "end"}
       /\ \E k \in {"none", "header", "tick", "ack", "term", "zero"}, f, t, b \in Int :
            last = [kind |-> k, from |-> f, to |-> t, bank |-> b]
       /\ Inv
Never == pos < -1
==============================================================================
