----------------------------- MODULE PlayerInd ------------------------------
(* Player at the real sizes, for streams of any length and every delivery    *)
(* schedule, with the registers it keeps its place in: the card's 16 bit     *)
(* pointers over an 8 KB ring, of which the program saves one byte and moves *)
(* one byte on.  Apalache checks that Inv is inductive:                      *)
(*   Init => Inv;  Inv /\ Next => Inv'                                       *)
(* The stream's layout (operations begin in slots, ACKs end frames) is what  *)
(* MuxInd shows of every stream.                                             *)
EXTENDS Integers

Frame == 2048
OpLen == 7
AckLen == 4
TermLen == 2
Buf == 8192
RxBase == 24576
Attempts == 6

VARIABLES
  \* @type: Int;
  total,
  \* @type: Int;
  lastAt,
  \* @type: Str;
  ph,
  \* @type: Int;
  tries,
  \* @type: Int;
  pos,
  \* @type: Int;
  arrived,
  \* @type: Int;
  freed,
  \* @type: Bool;
  key,
  \* @type: Int;
  ptr,
  \* @type: Int;
  rd,
  \* @type: Int;
  yreg,
  \* @type: Int;
  xreg,
  \* @type: { kind: Str, at: Int, len: Int, wrapped: Bool, rsr: Int, was: Int };
  did
\* @type: () => <<Int, Int>>;
env == <<total, lastAt>>

Slot(p) == p % Frame < Frame - AckLen /\ (p % Frame) % OpLen = 0
Stream == /\ total > 0 /\ total % Frame = 0
          /\ Slot(lastAt) /\ lastAt >= OpLen
          /\ lastAt \div Frame = (total \div Frame) - 1
Nothing == [kind |-> "none", at |-> 0, len |-> 0, wrapped |-> FALSE, rsr |-> 0, was |-> 0]
Init == /\ total \in Int /\ lastAt \in Int /\ Stream
        /\ ph = "connecting" /\ tries = 0 /\ key = FALSE
        /\ pos = 0 /\ arrived = 0 /\ freed = 0
        /\ ptr \in Int /\ ptr >= 0 /\ ptr < 65536 /\ rd = 0 /\ yreg \in Int /\ xreg \in Int
        /\ did = Nothing

\* The card: the data pointer after n accesses.  It wraps at the ring's end.
Walk(p, n) == IF p + n >= RxBase + Buf THEN p + n - Buf ELSE p + n
Rsr == arrived - freed
\* The card gives back what the program moved its pointer by.
GiveBack(r) == freed + ((r - freed) % 65536)

--------------------------------------------------------------------------
(* Environment *)
Accept == /\ ph = "connecting" /\ ph' = "header"
          /\ UNCHANGED <<tries, pos, arrived, freed, key, ptr, rd, yreg, xreg, env>>
          /\ did' = Nothing
Refuse == /\ ph = "connecting" /\ tries' = tries + 1
          /\ ph' = (IF tries + 1 = Attempts THEN "error" ELSE ph)
          /\ UNCHANGED <<pos, arrived, freed, key, ptr, rd, yreg, xreg, env>>
          /\ did' = Nothing
Arrive == /\ ph \notin {"connecting", "error"}
          /\ \E n \in Int : /\ n > 0 /\ arrived + n <= total
                            /\ arrived + n - freed <= Buf
                            /\ arrived' = arrived + n
          /\ UNCHANGED <<ph, tries, pos, freed, key, ptr, rd, yreg, xreg, env>>
          /\ did' = Nothing
Press == /\ ~key /\ key' = TRUE
         /\ UNCHANGED <<ph, tries, pos, arrived, freed, ptr, rd, yreg, xreg, env>>
         /\ did' = Nothing

--------------------------------------------------------------------------
(* Player: n bytes are read through the pointer *)
Read(n, k) ==
  /\ pos' = pos + n
  /\ did' = [kind |-> k, at |-> ptr, len |-> n,
             wrapped |-> (ptr + n > RxBase + Buf), rsr |-> Rsr, was |-> pos]
Header == /\ ph = "header" /\ Rsr \div 256 >= 1 /\ ph' = "check"
          /\ pos' = pos + OpLen
          /\ did' = [kind |-> "header", at |-> RxBase, len |-> OpLen, wrapped |-> FALSE,
                     rsr |-> Rsr, was |-> pos]
          /\ ptr' = Walk(RxBase, OpLen) /\ yreg' = RxBase \div 256 /\ xreg' = OpLen
          /\ UNCHANGED <<tries, arrived, freed, key, rd, env>>
\* Only the high byte of the size is looked at.
Enough == Rsr \div 256 >= 8
Look == /\ ph = "check" /\ Enough
        /\ ptr' = 256 * yreg + xreg
        /\ xreg' = 0
        /\ did' = [kind |-> "look", at |-> 256 * yreg + xreg, len |-> 0, wrapped |-> FALSE,
                   rsr |-> Rsr, was |-> pos]
        /\ ph' = (IF key THEN "paused" ELSE "op") /\ key' = FALSE
        /\ UNCHANGED <<tries, pos, arrived, freed, rd, yreg, env>>
Resume == /\ ph = "paused" /\ key /\ ph' = "op" /\ key' = FALSE /\ did' = Nothing
          /\ UNCHANGED <<tries, pos, arrived, freed, ptr, rd, yreg, xreg, env>>
AckHere == pos % Frame = Frame - AckLen
Op == /\ ph = "op" /\ ~AckHere /\ pos # lastAt
      /\ Read(OpLen, "op") /\ ptr' = Walk(ptr, OpLen)
      /\ UNCHANGED <<ph, tries, arrived, freed, key, rd, yreg, xreg, env>>
\* The program saves the pointer's high byte, adds 8 to the high byte of the
\* card's read pointer, and tells the card.
Ack == /\ ph = "op" /\ AckHere /\ ph' = "check"
       /\ Read(AckLen, "ack") /\ ptr' = Walk(ptr, AckLen)
       /\ yreg' = Walk(ptr, AckLen) \div 256 /\ xreg' = 0
       /\ rd' = (((rd \div 256) + 8) % 256) * 256 + (rd % 256)
       /\ freed' = GiveBack((((rd \div 256) + 8) % 256) * 256 + (rd % 256))
       /\ UNCHANGED <<tries, arrived, key, env>>
Terminate == /\ ph = "op" /\ pos = lastAt /\ ph' = "term" /\ key' = FALSE
             /\ Read(TermLen, "term") /\ ptr' = Walk(ptr, TermLen)
             /\ UNCHANGED <<tries, arrived, freed, rd, yreg, xreg, env>>
Quit == /\ ph = "term" /\ key /\ ph' = "done" /\ did' = Nothing
        /\ UNCHANGED <<tries, pos, arrived, freed, key, ptr, rd, yreg, xreg, env>>
Next == \/ Accept \/ Refuse \/ Arrive \/ Press \/ Header \/ Look \/ Resume
        \/ Op \/ Ack \/ Terminate \/ Quit

--------------------------------------------------------------------------
Ring(p) == RxBase + (p % Buf)
Shape ==
  /\ Stream
  /\ ph \in {"connecting", "error", "header", "check", "op", "paused", "term", "done"}
  /\ tries >= 0 /\ tries <= Attempts /\ (ph = "connecting" => tries < Attempts)
  /\ (ph = "error" => tries = Attempts)
  /\ pos >= 0 /\ freed >= 0 /\ arrived >= 0
  /\ freed % Frame = 0
  /\ (ph \in {"connecting", "error", "header"} => pos = 0 /\ freed = 0 /\ rd = 0)
  /\ (ph \in {"connecting", "error"} => arrived = 0)
  /\ (ph \in {"check", "op", "paused"} =>
        pos <= lastAt /\ (Slot(pos) \/ AckHere) /\ pos > 0 /\ freed = (pos \div Frame) * Frame)
  /\ (ph = "check" => pos - freed <= OpLen)
  /\ (ph \in {"term", "done"} => pos = lastAt + TermLen)
  /\ ptr >= 0 /\ ptr < 65536
\* Nothing is read before it arrived; the buffer never overflows.
Flow == pos <= arrived /\ freed <= pos /\ Rsr <= Buf /\ arrived <= total
\* While operations run, the rest of their frame is in the buffer.
FrameThere == ph \in {"op", "paused"} => freed + Frame <= arrived
\* The program's place in the ring is the byte it wants next, ...
Place == /\ ph \in {"op", "paused"} => ptr = Ring(pos) /\ xreg = 0
         /\ ph = "check" => 256 * yreg + xreg = Ring(pos)
\* ... the card's pointer is what was given back, in 16 bits, ...
Pointer == rd = freed % 65536
\* ... every byte is read where the card put it, and no read runs off the end.
Bytes == did.len > 0 => did.at = Ring(did.was) /\ ~did.wrapped
                        /\ did.was + did.len = pos
\* Only a whole frame that was read is given back.
Given == did.kind = "ack" => freed = did.was + AckLen /\ freed <= arrived
\* Waiting for data means data can come.
NoDeadlock == /\ ph = "check" => (Enough \/ (arrived < total /\ Rsr < Buf))
              /\ ph = "header" => (Rsr \div 256 >= 1 \/ (arrived < total /\ Rsr < Buf))
Inv == /\ Shape /\ Flow /\ FrameThere /\ Place /\ Pointer /\ Bytes /\ Given /\ NoDeadlock
Any == /\ total \in Int /\ lastAt \in Int /\ tries \in Int /\ pos \in Int
       /\ arrived \in Int /\ freed \in Int /\ ptr \in Int /\ rd \in Int
       /\ yreg \in Int /\ xreg \in Int /\ key \in BOOLEAN
       /\ ph \in {"connecting", "error", "header", "check", "op", "paused", "term", "done"}
       /\ \E k \in {"none", "header", "look", "op", "ack", "term"},
             a, n, r, w \in Int, b \in BOOLEAN :
            did = [kind |-> k, at |-> a, len |-> n, wrapped |-> b, rsr |-> r, was |-> w]
       /\ Inv
Never == pos < -1
=============================================================================
