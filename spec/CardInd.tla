------------------------------ MODULE CardInd -------------------------------
(* Card's pointer and socket status at the real sizes (65536 addresses), for *)
(* any number of accesses:  Init => Inv;  Inv /\ Next => Inv'  (Apalache).   *)
EXTENDS Integers

Page == 256
Size == 65536
Command == 1025
OPEN == 1
CONNECT == 4
CLOSED == 0
OPENED == 19
ESTABLISHED == 23

VARIABLES
  \* @type: Int;
  hi,
  \* @type: Int;
  lo,
  \* @type: Int;
  from,
  \* @type: Int;
  moved,
  \* @type: Int;
  status,
  \* @type: Int;
  opens,
  \* @type: Int;
  connects,
  \* @type: { kind: Str, at: Int, hi: Int, lo: Int };
  did

Ptr == hi * Page + lo
Init == /\ hi = 0 /\ lo = 0 /\ from = 0 /\ moved = 0 /\ status = CLOSED
        /\ opens = 0 /\ connects = 0
        /\ did = [kind |-> "none", at |-> 0, hi |-> 0, lo |-> 0]
Was(w) == did' = [kind |-> w, at |-> hi * Page + lo, hi |-> hi, lo |-> lo]
SetHi == /\ \E v \in Int : v >= 0 /\ v < Page /\ hi' = v /\ from' = v * Page + lo
         /\ moved' = 0 /\ Was("hi") /\ UNCHANGED <<lo, status, opens, connects>>
SetLo == /\ \E v \in Int : v >= 0 /\ v < Page /\ lo' = v /\ from' = hi * Page + v
         /\ moved' = 0 /\ Was("lo") /\ UNCHANGED <<hi, status, opens, connects>>
\* The pointer moves on by one: the low half, and when that overflows the high
Advance == /\ lo' = (lo + 1) % Page
           /\ hi' = (IF lo = Page - 1 THEN (hi + 1) % Page ELSE hi)
           /\ moved' = moved + 1 /\ Was("data") /\ UNCHANGED from
Access == Advance /\ UNCHANGED <<status, opens, connects>>
Open == /\ Ptr = Command /\ status = CLOSED /\ status' = OPENED /\ opens' = opens + 1
        /\ Advance /\ UNCHANGED connects
Connect == /\ Ptr = Command /\ status = OPENED /\ status' = ESTABLISHED
           /\ connects' = connects + 1 /\ Advance /\ UNCHANGED opens
Next == SetHi \/ SetLo \/ Access \/ Open \/ Connect

Halves == hi >= 0 /\ hi < Page /\ lo >= 0 /\ lo < Page /\ moved >= 0 /\ from >= 0 /\ from < Size
\* However many accesses, whatever they crossed.
Walks == Ptr = (from + moved) % Size
Independent == /\ did.kind = "hi" => lo = did.lo
               /\ did.kind = "lo" => hi = did.hi
Told == /\ status = (IF connects > 0 THEN ESTABLISHED ELSE IF opens > 0 THEN OPENED ELSE CLOSED)
        /\ connects >= 0 /\ opens >= 0 /\ connects <= opens /\ opens <= 1
Moves == did.kind = "data" => Ptr = (did.at + 1) % Size
Inv == Halves /\ Walks /\ Independent /\ Told /\ Moves
Any == /\ hi \in Int /\ lo \in Int /\ from \in Int /\ moved \in Int
       /\ status \in Int /\ opens \in Int /\ connects \in Int
       /\ \E w \in {"none", "hi", "lo", "data"}, a, h, l \in Int :
            did = [kind |-> w, at |-> a, hi |-> h, lo |-> l]
       /\ Inv
Never == hi < -1
=============================================================================
