------------------------------- MODULE Server -------------------------------
(* The server.  Clients connect, read at their own pace, and may hang up;    *)
(* the file may be replaced; the server may be stopped and started again.    *)
(* Clients are served one after the other.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Versions,  \* of the file, the first one is current at first
          SizeOf,             \* of each version
          Buffer              \* bytes the network holds for a client
VARIABLES file,      \* the current version
          up,
          queue,     \* clients waiting to be served, first come first
          serving,   \* the client being served, or None
          cl         \* what each client has: [st, ver, sent, got]
svars == <<file, up, queue, serving, cl>>
None == "none"
Fresh == [st |-> "away", ver |-> None, sent |-> 0, got |-> 0]
First == CHOOSE v \in Versions : TRUE
Init == /\ file = First /\ up = TRUE /\ queue = <<>> /\ serving = None
        /\ cl = [c \in Clients |-> Fresh]
Connect(c) == /\ up /\ cl[c].st = "away"
              /\ cl' = [cl EXCEPT ![c].st = "open"]
              /\ queue' = Append(queue, c) /\ UNCHANGED <<file, up, serving>>
\* The file is read as a whole when a client's turn comes.
Accept == /\ up /\ serving = None /\ queue # <<>>
          /\ serving' = Head(queue) /\ queue' = Tail(queue)
          /\ cl' = [cl EXCEPT ![Head(queue)].ver = file]
          /\ UNCHANGED <<file, up>>
Send == /\ serving # None
        /\ LET x == cl[serving] IN
             /\ x.st = "open" /\ x.sent < SizeOf[x.ver] /\ x.sent - x.got < Buffer
             /\ cl' = [cl EXCEPT ![serving].sent = @ + 1]
        /\ UNCHANGED <<file, up, queue, serving>>
\* Everything is sent, or the client has gone.
Finish == /\ serving # None
          /\ LET x == cl[serving] IN
               /\ x.st = "gone" \/ x.sent = SizeOf[x.ver]
               /\ cl' = IF x.st = "open" THEN [cl EXCEPT ![serving].st = "eof"] ELSE cl
          /\ serving' = None /\ UNCHANGED <<file, up, queue>>
Read(c) == /\ cl[c].got < cl[c].sent /\ cl[c].st \in {"open", "eof"}
           /\ cl' = [cl EXCEPT ![c].got = @ + 1]
           /\ UNCHANGED <<file, up, queue, serving>>
End(c) == /\ cl[c].st = "eof" /\ cl[c].got = cl[c].sent
          /\ cl' = [cl EXCEPT ![c].st = "done"] /\ UNCHANGED <<file, up, queue, serving>>
HangUp(c) == /\ cl[c].st \in {"open", "eof"}
             /\ cl' = [cl EXCEPT ![c].st = "gone"]
             /\ UNCHANGED <<file, up, queue, serving>>
Replace(v) == file # v /\ file' = v /\ UNCHANGED <<up, queue, serving, cl>>
Stop == /\ up /\ up' = FALSE /\ queue' = <<>> /\ serving' = None
        /\ cl' = [c \in Clients |-> IF cl[c].st \in {"open", "eof"}
                                    THEN [cl[c] EXCEPT !.st = "cut"] ELSE cl[c]]
        /\ UNCHANGED file
Start == ~up /\ up' = TRUE /\ UNCHANGED <<file, queue, serving, cl>>
Next == \/ Accept \/ Send \/ Finish \/ Stop \/ Start
        \/ \E c \in Clients : Connect(c) \/ Read(c) \/ End(c) \/ HangUp(c)
        \/ \E v \in Versions : Replace(v)
Fair == WF_svars(Accept) /\ WF_svars(Send) /\ WF_svars(Finish)
        /\ \A c \in Clients : WF_svars(Read(c)) /\ WF_svars(End(c))
Spec == Init /\ [][Next]_svars /\ Fair
--------------------------------------------------------------------------
\* C30
Whole == \A c \in Clients : cl[c].st = "done" =>
           cl[c].ver \in Versions /\ cl[c].got = SizeOf[cl[c].ver]
Within == \A c \in Clients : cl[c].got <= cl[c].sent
             /\ (cl[c].ver # None => cl[c].sent <= SizeOf[cl[c].ver])
\* a client that stays on a server that stays up gets everything, whatever
\* the others do, as long as they read or hang up
Served == \A c \in Clients : (cl[c].st = "open") ~> (cl[c].st \in {"done", "gone", "cut"})
============================================================================
