--------------------------------- MODULE Card --------------------------------
(* The network card as its host sees it: a memory of Pages * PageSize bytes  *)
(* reached through a pointer in two halves, which each data access moves on  *)
(* by one (simulator/uthernet.py; W5100 indirect bus mode with               *)
(* auto-increment).  Some of the memory is registers; two of them matter     *)
(* here: the mode register, also reachable directly, and socket 0's command, *)
(* which drives the socket's status.                                         *)
EXTENDS Integers, Sequences

CONSTANTS Pages, PageSize, Bytes,
          Mode, Command, Status,         \* where these registers are
          OPEN, CONNECT,                 \* commands
          CLOSED, OPENED, ESTABLISHED      \* states of a socket

VARIABLES hi, lo, mem, from, moved, cmds
cvars == <<hi, lo, mem, from, moved, cmds>>

Size == Pages * PageSize
Ptr(h, l) == h * PageSize + l
Next1(p) == (p + 1) % Size

\* Effect of writing v at p: on the status register, if p is the command
\* register.  (The card is not asked to CONNECT a socket that is not open.)
After(m, p, v) ==
  LET w == [m EXCEPT ![p] = v] IN
  IF p # Command THEN w
  ELSE IF v = OPEN THEN [w EXCEPT ![Status] = OPENED]
  ELSE IF v = CONNECT THEN [w EXCEPT ![Status] = ESTABLISHED]
  ELSE w
CanWrite(m, p, v) ==
  /\ p # Status
  /\ (p = Command => \/ v = OPEN /\ m[Status] = CLOSED
                     \/ v = CONNECT /\ m[Status] = OPENED)

Init == /\ hi = 0 /\ lo = 0 /\ mem = [a \in 0..(Size - 1) |-> 0]
        /\ from = 0 /\ moved = 0 /\ cmds = <<>>
SetHi(v) == hi' = v /\ from' = Ptr(v, lo) /\ moved' = 0 /\ UNCHANGED <<lo, mem, cmds>>
SetLo(v) == lo' = v /\ from' = Ptr(hi, v) /\ moved' = 0 /\ UNCHANGED <<hi, mem, cmds>>
Advance == LET p == Next1(Ptr(hi, lo)) IN
             hi' = p \div PageSize /\ lo' = p % PageSize
             /\ moved' = (moved + 1) % Size /\ UNCHANGED from
ReadData == Advance /\ UNCHANGED <<mem, cmds>>
WriteData(v) ==
  LET p == Ptr(hi, lo) IN
  /\ CanWrite(mem, p, v)
  /\ mem' = After(mem, p, v)
  /\ cmds' = IF p = Command THEN Append(cmds, v) ELSE cmds
  /\ Advance
WriteMode(v) == mem' = [mem EXCEPT ![Mode] = v] /\ UNCHANGED <<hi, lo, from, moved, cmds>>
Next == \/ \E v \in 0..(Pages - 1) : SetHi(v)
        \/ \E v \in 0..(PageSize - 1) : SetLo(v)
        \/ ReadData \/ \E v \in Bytes : WriteData(v) \/ WriteMode(v)
Spec == Init /\ [][Next]_cvars

\* --- what follows ---------------------------------------------------------
\* n data accesses after the pointer was set, it points n further on, whatever
\* boundaries were crossed.
Walks == Ptr(hi, lo) = (from + moved) % Size
Halves == hi \in 0..(Pages - 1) /\ lo \in 0..(PageSize - 1)
\* The status tells the history of commands.
Told == mem[Status] = CASE cmds = <<>> -> CLOSED
                        [] cmds = <<OPEN>> -> OPENED
                        [] OTHER -> ESTABLISHED
\* The two halves are set independently.
Independent ==
  [][moved' = 0 /\ moved # Size - 1 => (hi' = hi \/ lo' = lo)]_cvars
\* Only one cell, and the status with the command, changes at a time.
OneCell ==
  [][\A a, b \in 0..(Size - 1) :
       (a # b /\ mem'[a] # mem[a] /\ mem'[b] # mem[b]) => {a, b} = {Command, Status}]_cvars
==============================================================================
