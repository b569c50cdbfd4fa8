---------------------------- MODULE ServerTrace ----------------------------
(* Checks what real clients received from the real server.                  *)
(* e.lcp[v]: how many of the received bytes agree with the v-th version of  *)
(* the file, from the start; e.sizes: the versions' sizes.                  *)
EXTENDS TraceLib
Start == [file |-> 1, sizes |-> <<>>, cl |-> <<>>]
Open(s) == {c \in 1..Len(s.cl) : s.cl[c].st = "open"}
New(s) == [st |-> "open", seen |-> {s.file}, got |-> 0]
\* received so far: the beginning of a version it may have been given
Part(s, e) == LET x == s.cl[e.c] IN
  When(~\E v \in x.seen : e.lcp[v] = e.got /\ e.got <= s.sizes[v], <<"C30", "Unmodified">>)
Connect(s, e) ==
  Res([s EXCEPT !.cl = Append(@, New(s))],
      When(~e.ok, <<"C30", "Refused">>) \cup When(e.c # Len(s.cl) + 1, <<"X", "Driver">>))
Read(s, e) ==
  LET x == s.cl[e.c] IN
  Res([s EXCEPT !.cl[e.c].got = e.got],
      Part(s, e) \cup When(x.st # "open", <<"X", "Driver">>))
\* The end of the stream, or giving up waiting for it
End(s, e) ==
  LET x == s.cl[e.c] IN
  Res([s EXCEPT !.cl[e.c].st = "done"],
      Part(s, e)
      \cup (IF x.st = "cut" THEN {}
            ELSE When(e.how = "stuck", <<"C30", "Served">>)
                 \cup When(e.how = "reset", <<"C30", "EndOfStream">>)
                 \cup When(~\E v \in x.seen : e.lcp[v] = e.got /\ e.got = s.sizes[v],
                           <<"C30", "Whole">>)))
Close(s, e) == Res([s EXCEPT !.cl[e.c].st = "gone"], {})
Replace(s, e) ==
  Res([s EXCEPT !.file = e.v,
                !.cl = [c \in 1..Len(s.cl) |->
                          IF s.cl[c].st = "open" THEN [s.cl[c] EXCEPT !.seen = @ \cup {e.v}]
                          ELSE s.cl[c]]], {})
\* Stopped and started again on the same port
Restart(s, e) ==
  Res([s EXCEPT !.cl = [c \in 1..Len(s.cl) |->
                          IF s.cl[c].st = "open" THEN [s.cl[c] EXCEPT !.st = "cut"]
                          ELSE s.cl[c]]],
      When(~e.up, <<"C30", "PortReuse">>))
Step(s, e) == CASE e.ev = "Setup" -> Res([Start EXCEPT !.sizes = e.sizes],
                                         When(~e.up, <<"C30", "Starts">>))
                [] e.ev = "Connect" -> Connect(s, e)
                [] e.ev = "Read" -> Read(s, e)
                [] e.ev = "End" -> End(s, e)
                [] e.ev = "Close" -> Close(s, e)
                [] e.ev = "Replace" -> Replace(s, e)
                [] e.ev = "Restart" -> Restart(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == When(Open(s) # {}, <<"X", "Driver">>)
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
