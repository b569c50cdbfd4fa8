----------------------------- MODULE CodecTrace -----------------------------
(* Checks parsed debug files against Symbols' meaning, and emitted bytes     *)
(* against Codec's encoding with the addresses of the assembled player.      *)
EXTENDS TraceLib

TickSet == {4 + 2 * i : i \in 0..31}
PageSet == 32..63
C == INSTANCE Codec WITH Ticks <- TickSet, Pages <- PageSet, Bytes <- 0..255,
       Addrs <- {}, MaxOps <- 0, addr <- 0, ops <- 0, bytes <- 0, at <- 0, got <- 0
Y == INSTANCE Symbols WITH Kinds <- {}, Names <- {}, Values <- {}, MaxLines <- 0,
       file <- 0, text <- 0, i <- 0, part <- 0, kind <- 0, key <- 0, val <- 0,
       rec <- 0, table <- 0

Start == [addr |-> <<>>, seen |-> {}]

\* e.lines as Symbols has them; "sym" is a string here.
Parse(s, e) ==
  LET syms == SelectSeq(e.lines, LAMBDA x : x.kind = "sym")
      name == TLCEval([k \in 1..Len(syms) |-> Y!AttrOf(syms[k], "name")])
      recs == TLCEval({<<name[k], Y!AttrSet(syms[k])>> : k \in 1..Len(syms)})
      got == TLCEval({<<e.got[k][1], Range(e.got[k][2])>> : k \in 1..Len(e.got)})
      keys == {x[1] : x \in got} IN
  Res(s, When(\/ ~(got \subseteq recs) \/ keys # Range(name)
              \/ Cardinality(keys) # Len(e.got)
              \/ \E k \in 1..Len(e.got) :
                   Len(e.got[k][2]) # Cardinality(Range(e.got[k][2])),
              <<"C34", "Recovered">>))
Addresses(s, e) ==
  Res(s, When(\E k \in DOMAIN e.ticks : e.ticks[k] <= 0, <<"C34", "TickAddress">>)
         \cup When(\E k \in DOMAIN e.rest : e.rest[k] <= 0, <<"C34", "Address">>))

AddrOf(e) ==
  TLCEval([k \in {<<"tick", x[1], x[2]>> : x \in Range(e.ticks)}
             \cup {<<"ack">>, <<"term">>, <<"nop">>, <<"header">>} |->
    CASE k[1] = "tick" -> LET j == CHOOSE n \in {32 * (k[3] - 32) + (k[2] - 4) \div 2 + 1} :
                                     TRUE IN e.ticks[j][3]
      [] k[1] = "ack" -> e.ack [] k[1] = "term" -> e.term
      [] k[1] = "nop" -> e.nop [] OTHER -> e.header])
Labels(s, e) ==
  LET a == AddrOf(e) IN
  Res([s EXCEPT !.addr = a],
      When(Cardinality(Range(a)) # Cardinality(DOMAIN a), <<"C05", "Distinct">>)
      \cup When(\E x \in Range(e.ticks) : a[<<"tick", x[1], x[2]>>] # x[3], <<"X", "Driver">>))
Committed(s, e) == Res(s, When(AddrOf(e) # s.addr, <<"C05", "AddressesOfTheProgram">>))
OpOf(e) == CASE e.kind = "tick" -> C!TickOp(e.t, e.p, e.c, e.offs)
             [] e.kind = "ack" -> C!AckOp(e.aux)
             [] e.kind = "term" -> C!TermOp
             [] OTHER -> C!HeaderOp(e.mode)
Emit(s, e) ==
  LET op == OpOf(e) IN
  Res([s EXCEPT !.seen = @ \cup {IF e.kind = "header" THEN <<"header", e.mode>>
                                 ELSE C!RoutineKey(op)}],
      When(e.bytes # C!Encode(op, s.addr), <<"C05", "Bytes">>))
Keys(s, e) == Res(s, When(Range(e.keys) # TickSet \X PageSet, <<"C05", "Table">>))

Step(s, e) == CASE e.ev = "Parse" -> Parse(s, e)
                [] e.ev = "Addresses" -> Addresses(s, e)
                [] e.ev = "Labels" -> Labels(s, e)
                [] e.ev = "Committed" -> Committed(s, e)
                [] e.ev = "Emit" -> Emit(s, e)
                [] e.ev = "Keys" -> Keys(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == When(s.addr # <<>> /\ ~(C!RoutineKeys \cup {<<"header", 0>>, <<"header", 1>>} \subseteq s.seen),
                 <<"X", "Coverage">>)
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
