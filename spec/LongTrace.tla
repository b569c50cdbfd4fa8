----------------------------- MODULE LongTrace -----------------------------
(* Streams as long as real movies, of operations that are all alike.  Every  *)
(* byte of such a stream follows from its position (Mux: 292 operations make *)
(* a frame), so the stream is given as runs of equal blocks of two frames.   *)
EXTENDS TraceLib
Sym == Trace[1]
Mx == INSTANCE Mux WITH Frame <- 2048, OpLen <- 7, AckLen <- 4, TermLen <- 2,
        Limits <- {}, Supplies <- {}, dual <- 0, limit <- 0, supply <- 0,
        pos <- 0, bank <- 0, phase <- 0, used <- 0, log <- 0
Block == 4096
Start == [mode |-> 0, stop |-> -1, c |-> 0]

\* Where the stream is after u units (header and operations) with their ACKs
After(u) == 7 * u + 4 * (u \div 292)
\* The first such place at or after the limit
StopAt(ops, limit) ==
  LET guess == (limit - 4 * (limit \div 2048)) \div 7
      near == {u \in (guess - 3)..(guess + 3) : u >= 0 /\ Mx!LimitHit(After(u), limit)} IN
  IF limit = 0 THEN After(ops + 1)
  ELSE LET u == CHOOSE u \in near : \A v \in near : u <= v IN After(MinOf(u, ops + 1))

Long(s, e) == Ok([mode |-> e.mode, stop |-> StopAt(e.ops, e.limit), c |-> 0])

Tick == Sym.ticks[16]      \* page 32, tick 34
Two(a) == <<a \div 256, a % 256>>
OpBytes == Two(Tick) \o <<77, 1, 2, 3, 4>>
AckBytes(s, pos) ==
  Two(Sym.ack) \o <<84 + (IF s.mode = 1 THEN (1 + pos \div 2048) % 2 ELSE 0), 255>>
HeaderBytes(s) == [i \in 1..7 |-> IF i = 7 THEN s.mode ELSE 255]
Wanted(s, pos) ==
  LET r == pos % 2048 IN
  IF pos >= s.stop
  THEN IF pos < s.stop + 2 THEN Two(Sym.term)[pos - s.stop + 1] ELSE 0
  ELSE IF r >= 2044 THEN AckBytes(s, pos)[r - 2043]
  ELSE IF pos < 7 THEN HeaderBytes(s)[pos + 1]
  ELSE OpBytes[(r % 7) + 1]

Blocks(s, e) ==
  LET base == s.c * Block
      wrong == {i \in 1..Len(e.b) : e.b[i] # Wanted(s, base + i - 1)}
      first == CHOOSE i \in wrong : \A j \in wrong : i <= j
      pos == base + first - 1
      r == pos % 2048
      \* the operation the first wrong byte is in
      u == first - (IF r < 2044 THEN r % 7 ELSE 0)
      ends == u \in 1..(Len(e.b) - 1) /\ <<e.b[u], e.b[u + 1]>> = Two(Sym.term) IN
  Res([s EXCEPT !.c = @ + e.n],
      \* a run of blocks lies before the end, where all blocks but the first are equal
      When(e.n > 1 /\ (base + e.n * Block > s.stop), <<"C02", "OpAfterLimit">>)
      \cup When(e.n > 1 /\ base = 0, <<"C01", "HeaderFiller">>)
      \cup When(wrong # {} /\ (pos >= s.stop \/ ends), <<"C02", "EndsElsewhere">>)
      \cup When(wrong # {} /\ pos < s.stop /\ ~ends /\ r = 2046, <<"C03", "WrongBankSwitch">>)
      \cup When(wrong # {} /\ pos < s.stop /\ ~ends /\ r # 2046, <<"C01", "NotAnOperation">>))
End(s, e) ==
  Res(s, When(e.total # Mx!PadTo(s.stop + 2), <<"C02", "NotOneTerminate">>)
         \cup When(e.total % 2048 # 0, <<"C01", "NotWholeFrames">>))
Step(s, e) == CASE e.ev = "Sym" -> Ok(s)
                [] e.ev = "Long" -> Long(s, e)
                [] e.ev = "Blocks" -> Blocks(s, e)
                [] e.ev = "End" -> End(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
=============================================================================
