------------------------------ MODULE TraceLib ------------------------------
(* Common frame of the trace specifications.                                 *)
(*                                                                           *)
(* A trace is a file of JSON lines, one observed event of the real code per  *)
(* line.  A trace specification gives Start and Step(s, e): the set of       *)
(* clauses <<property, name>> that event e violates in abstract state s, and *)
(* the next abstract state, in a record [st, bad].  The check of one         *)
(* property selects its clauses (and those named X: the trace is not a       *)
(* behaviour of the system in any sense).  Every trace gets a verdict.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
NEvents == Len(Trace)

Ok(s) == [st |-> s, bad |-> {}]
Res(s, bad) == [st |-> s, bad |-> bad]
When(cond, c) == IF cond THEN {c} ELSE {}

Mine(S) == {c \in S : c[1] \in {Prop, "X"}}

Range(f) == {f[x] : x \in DOMAIN f}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE FoldLeft(_, _, _)
FoldLeft(Op(_, _), acc, seq) ==
  IF seq = <<>> THEN acc
  ELSE FoldLeft(Op, Op(acc, Head(seq)), Tail(seq))

\* Bit i of n.
Bit(n, i) == (n \div (2 ^ i)) % 2
===========================================================================
