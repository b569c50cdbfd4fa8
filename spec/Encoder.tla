------------------------------ MODULE Encoder -------------------------------
(* How pending differences between the player's screen and the target are    *)
(* turned into operations.  A byte's urgency (up) is the visible error it has *)
(* had in all passes since it was last stored or became correct.  A pass     *)
(* sends the most urgent first; each operation carries the exact target byte *)
(* of one offset, and stores it at up to three others of the page where it   *)
(* is a strict improvement.  A byte such a store leaves wrong stays queued.  *)
(*                                                                           *)
(* The rules are operators on functions over the offsets of one page (dw:    *)
(* visible error when the pass began; sd: error that would result from       *)
(* storing the content; key: the urgency a byte is queued with), shared with *)
(* the trace specification.  The model is of a few bytes without context.    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Extras      \* stores beside the lead (3)

Accumulated(up, dw) == [o \in DOMAIN up |-> IF dw[o] = 0 THEN 0 ELSE up[o] + dw[o]]
Pending(up) == {o \in DOMAIN up : up[o] > 0}

\* Offsets, other than lead, that content could be stored at with profit.
Useful(up, dw, sd, lead) == {o \in DOMAIN up : o # lead /\ up[o] > 0 /\ sd[o] < dw[o]}
\* Is xs a proper choice of extras out of S: the best first, all there are
\* or three?
BestFirst(xs, S, dw, sd) ==
  \A i \in 1..Len(xs) :
    \A o \in S \ {xs[j] : j \in 1..i} : sd[xs[i]] - dw[xs[i]] <= sd[o] - dw[o]
Distinct(xs) == \A i, j \in 1..Len(xs) : i # j => xs[i] # xs[j]
Enough(xs, S) == Len(xs) = (IF Cardinality(S) < Extras THEN Cardinality(S) ELSE Extras)

Larger(a, b) == IF a > b THEN a ELSE b
\* Urgency and queue position after an operation.  res: residual error of the
\* bytes stored to as extras.
Urgencies(up, lead, xs, res) ==
  [o \in DOMAIN up |-> IF o = lead THEN 0
                       ELSE IF \E i \in 1..Len(xs) : xs[i] = o THEN res[o] ELSE up[o]]
Keys(key, xs, res) ==
  [o \in DOMAIN key |-> IF \E i \in 1..Len(xs) : xs[i] = o
                        THEN Larger(key[o], res[o]) ELSE key[o]]

--------------------------------------------------------------------------
CONSTANTS Cells, Vals, Err,       \* Err[a][b]: visible error of a for b
          MaxPasses
VARIABLES target, src, dw, up, key, passes, sent, ghost, last
evars == <<target, src, dw, up, key, passes, sent, ghost, last>>
\* sent: operations in this pass; ghost: error summed as in the property;
\* last: the last operation, <<lead, extras, changed>>

Zero == [c \in Cells |-> 0]
EInit == /\ target \in [Cells -> Vals] /\ src = [c \in Cells |-> CHOOSE v \in Vals : TRUE]
         /\ dw = Zero /\ up = Zero /\ key = Zero /\ ghost = Zero
         /\ passes = 0 /\ sent = 0 /\ last = <<>>

\* A pass begins: for a new frame, or for the same one after a bank switch.
Pass(t) ==
  /\ passes < MaxPasses
  /\ passes' = passes + 1 /\ sent' = 0 /\ last' = <<>>
  /\ target' = t
  /\ dw' = [c \in Cells |-> Err[src[c]][t[c]]]
  /\ up' = Accumulated(up, dw')
  /\ key' = up'
  /\ ghost' = [c \in Cells |-> IF src[c] = t[c] \/ Err[src[c]][t[c]] = 0 THEN 0
                               ELSE ghost[c] + Err[src[c]][t[c]]]
  /\ UNCHANGED src
NewFrame == \E t \in [Cells -> Vals] : Pass(t)
SameFrame == passes > 0 /\ Pass(target)

Store(lead, xs) ==
  LET v == target[lead]
      d == [dw EXCEPT ![lead] = 0]
      sd == [c \in Cells |-> Err[v][target[c]]]
      S == Useful(up, d, sd, lead)
      hit == {lead} \cup {xs[i] : i \in 1..Len(xs)} IN
  /\ Distinct(xs) /\ {xs[i] : i \in 1..Len(xs)} \subseteq S
  /\ Enough(xs, S) /\ BestFirst(xs, S, d, sd)
  /\ src' = [c \in Cells |-> IF c \in hit THEN v ELSE src[c]]
  /\ dw' = d
  /\ up' = Urgencies(up, lead, xs, sd)
  /\ key' = Keys(key, xs, sd)
  /\ ghost' = [c \in Cells |-> IF c \in hit THEN Err[v][target[c]] ELSE ghost[c]]
  /\ last' = <<lead, xs>>
  /\ sent' = sent + 1
  /\ UNCHANGED <<target, passes>>
\* Sequences of up to three cells.
Choices == {<<>>} \cup {<<a>> : a \in Cells} \cup {<<a, b>> : a, b \in Cells}
           \cup {<<a, b, c>> : a, b, c \in Cells}
Send == /\ passes > 0
        /\ \E lead \in Pending(up) :
             /\ \A q \in Pending(up) : key[q] <= key[lead]
             /\ \E xs \in Choices : Store(lead, xs)
Idle == passes > 0 /\ Pending(up) = {} /\ last' = <<>> /\ UNCHANGED <<target, src, dw, up, key, passes, sent, ghost>>

ENext == NewFrame \/ SameFrame \/ Send \/ Idle
ESpec == EInit /\ [][ENext]_evars /\ WF_evars(Send)

\* Urgency is exactly the error accumulated since the last store or match.
UrgencyIsNeglect == up = ghost
\* Bytes are pending exactly while they look wrong.
PendingIsWrong == passes > 0 => \A c \in Cells : (up[c] > 0) = (Err[src[c]][target[c]] > 0)
\* A pass is over after at most one operation per byte.
PassBounded == sent <= Cardinality(Cells)
\* An operation always leaves its lead exact, and makes nothing worse than
\* it was when the pass began.
LeadExact == last # <<>> => src[last[1]] = target[last[1]]
NeverWorse == [][last' # <<>> /\ passes' = passes =>
                   \A c \in Cells : Err[src'[c]][target[c]] > Err[src[c]][target[c]]
                                    => Err[src'[c]][target[c]] < dw[c]]_evars
\* When the target stays the same, the screen comes to look like it.
Settled == passes = MaxPasses /\ Pending(up) = {}
Converges == <>[](passes < MaxPasses \/ (\A c \in Cells : Err[src[c]][target[c]] = 0))
===========================================================================
