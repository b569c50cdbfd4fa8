------------------------------- MODULE Codec -------------------------------
(* How player operations are written as bytes, and read back by the player.  *)
(* An operation is the big-endian address of the player routine that         *)
(* executes it, followed by its parameters, which that routine reads before  *)
(* it reads the address of the next routine.                                 *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Ticks, Pages     \* sound levels and screen pages there are
CONSTANTS Bytes            \* parameter values to consider (design model)

Big(a) == <<a \div 256, a % 256>>

\* Operations
TickOp(t, p, c, offs) == [kind |-> "tick", t |-> t, p |-> p, c |-> c, offs |-> offs]
AckOp(aux) == [kind |-> "ack", aux |-> aux]
TermOp == [kind |-> "term"]
HeaderOp(mode) == [kind |-> "header", mode |-> mode]

\* addr: a function from routine keys to addresses.
RoutineKey(op) == IF op.kind = "tick" THEN <<"tick", op.t, op.p>> ELSE <<op.kind>>
RoutineKeys == {<<"tick", t, p>> : t \in Ticks, p \in Pages}
               \cup {<<"ack">>, <<"term">>}
Params(op) == CASE op.kind = "tick" -> <<op.c>> \o op.offs
                [] op.kind = "ack" -> <<IF op.aux THEN 85 ELSE 84, 255>>
                [] op.kind = "term" -> <<>>
Encode(op, addr) ==
  IF op.kind = "header" THEN <<255, 255, 255, 255, 255, 255, op.mode>>
  ELSE Big(addr[RoutineKey(op)]) \o Params(op)

NParams(key) == IF key[1] = "tick" THEN 5 ELSE IF key[1] = "ack" THEN 2 ELSE 0

--------------------------------------------------------------------------
(* Design model: a stream of operations, written and then decoded the way    *)
(* the player does, is the same stream whatever the (distinct) addresses.    *)

VARIABLES addr, ops, bytes, at, got
cvars == <<addr, ops, bytes, at, got>>

CONSTANTS Addrs, MaxOps
Init == /\ addr \in [RoutineKeys -> Addrs]
        /\ \A x, y \in RoutineKeys : addr[x] = addr[y] => x = y
        /\ ops = <<>> /\ bytes = <<>> /\ at = 1 /\ got = <<>>
Terminated == Len(ops) > 0 /\ ops[Len(ops)].kind = "term"
Write(op) == /\ Len(ops) < MaxOps /\ ~Terminated
             /\ ops' = Append(ops, op) /\ bytes' = bytes \o Encode(op, addr)
             /\ UNCHANGED <<addr, at, got>>
WriteTick == \E t \in Ticks, p \in Pages, c \in Bytes, o \in Bytes :
               Write(TickOp(t, p, c, <<o, c, o, o>>))
WriteAck == \E a \in BOOLEAN : Write(AckOp(a))
WriteTerm == Write(TermOp)
Decode(k, a) ==
  LET b(j) == bytes[a + 1 + j] IN
  CASE k[1] = "tick" -> TickOp(k[2], k[3], b(1), <<b(2), b(3), b(4), b(5)>>)
    [] k[1] = "ack" -> AckOp(b(1) = 85)
    [] k[1] = "term" -> TermOp
Read == /\ at <= Len(bytes)
        /\ LET a == bytes[at] * 256 + bytes[at + 1]
               k == CHOOSE x \in RoutineKeys : addr[x] = a IN
             /\ got' = Append(got, Decode(k, at))
             /\ at' = at + 2 + NParams(k)
        /\ UNCHANGED <<addr, ops, bytes>>
Next == WriteTick \/ WriteAck \/ WriteTerm \/ Read
Spec == Init /\ [][Next]_cvars

\* What has been read is what was written, at operation boundaries.
Faithful == /\ Len(got) <= Len(ops)
            /\ \A i \in 1..Len(got) : got[i] = ops[i]
            /\ at <= Len(bytes) => \E k \in RoutineKeys :
                 addr[k] = bytes[at] * 256 + bytes[at + 1]
===========================================================================
