----------------------------- MODULE FramesTrace -----------------------------
(* Checks what happened to the frames of real videos against Frames.tla.     *)
EXTENDS TraceLib
\* Frame i as the stand-in for the converter makes it
FrameByte(i, bank, pos) == (i * 3 + bank * 101 + pos * 17 + (i \div 64)) % 256
\* "a bounded number": whatever the length of the video
Bound == 64

Start == [len |-> -1, fault |-> -1, mode |-> "", out |-> 0, conv |-> {}, over |-> TRUE]
Begin(s, e) ==
  Res([len |-> e.len, fault |-> e.fault, mode |-> e.mode, out |-> 0, conv |-> {},
       over |-> FALSE], When(~s.over, <<"X", "Driver">>))
Convert(s, e) ==
  Res([s EXCEPT !.conv = @ \cup {e.i}],
      When(e.i \in s.conv, <<"C27", "ConvertedTwice">>)
      \cup When(e.i >= s.len \/ (s.fault >= 0 /\ e.i >= s.fault), <<"X", "Driver">>)
      \cup When(Cardinality(s.conv) + 1 - s.out > Bound, <<"C27", "Bounded">>))
Deliver(s, e) ==
  LET want(bank) == [k \in 1..Len(e.at) |-> FrameByte(s.out, bank, e.at[k])] IN
  Res([s EXCEPT !.out = @ + 1],
      When(s.over, <<"C27", "AfterTheEnd">>)
      \cup When(s.fault >= 0 /\ s.out >= s.fault, <<"C27", "BeyondTheFault">>)
      \cup When(s.out >= s.len, <<"C27", "TooMany">>)
      \cup When(~(s.out \in s.conv), <<"C27", "NotConverted">>)
      \cup When(e.main # want(0), <<"C27", "InOrder">>)
      \cup When(e.aux # (IF s.mode = "DHGR" THEN want(1) ELSE <<>>), <<"C27", "InOrder">>))
Good(s) == IF s.fault >= 0 THEN s.fault ELSE s.len
Ended(s, e) ==
  Res([s EXCEPT !.over = TRUE],
      When(s.fault >= 0, <<"C27", "FailureHidden">>)
      \cup When(s.fault < 0 /\ s.out # s.len, <<"C27", "Complete">>))
Failed(s, e) ==
  Res([s EXCEPT !.over = TRUE],
      When(s.fault < 0, <<"C27", "SpuriousFailure">>)
      \cup When(s.fault >= 0 /\ s.out # s.fault, <<"C27", "FramesBeforeFailure">>))
\* Whatever was asked for has not come.
Stuck(s, e) == Res(s, {<<"C27", "WaitsForever">>})
\* Threads that would keep the program from ending
Left(s, e) == Res([s EXCEPT !.over = TRUE], When(e.lingering # 0, <<"C27", "KeepsTheProgram">>))

Step(s, e) == CASE e.ev = "Begin" -> Begin(s, e)
                [] e.ev = "Convert" -> Convert(s, e)
                [] e.ev = "Deliver" -> Deliver(s, e)
                [] e.ev = "Ended" -> Ended(s, e)
                [] e.ev = "Failed" -> Failed(s, e)
                [] e.ev = "Stuck" -> Stuck(s, e)
                [] e.ev = "Left" -> Left(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == When(~s.over, <<"X", "Driver">>)
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
