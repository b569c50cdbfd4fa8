------------------------------- MODULE Apple2 -------------------------------
(* What is on the bus of the Apple II that the player runs on: memory (with  *)
(* the auxiliary screen page), soft switches, keyboard, speaker, and the     *)
(* W5100 in slot 1.                                                          *)
(*                                                                           *)
(* What the environment decides (how many bytes have come in by the time the *)
(* program looks, whether a key has been pressed, whether the connection is  *)
(* up) is asked for when the program looks: b.orc holds the answer to the    *)
(* first question, b.asked says which question it was.                       *)
EXTENDS W5100, Integers

CONSTANTS StreamByte(_, _),  \* the stream: bus, position -> byte
          Image, Origin,     \* the program
          Noise              \* what untouched memory holds

NoAnswer == [n |-> 0, key |-> FALSE, st |-> "stay", open |-> TRUE]

Fresh == [ov |-> <<>>, aux |-> <<>>, clr |-> FALSE, clrx |-> FALSE,
          sw |-> [store80 |-> FALSE, page2 |-> FALSE, hires |-> FALSE,
                  text |-> TRUE, mixed |-> FALSE, col80 |-> FALSE,
                  dhires |-> FALSE],
          kb |-> FALSE, w |-> PowerUp, since |-> 0,
          gaps |-> <<>>, stores |-> <<>>, cmds |-> <<>>, out |-> <<>>,
          stream |-> <<>>, base |-> 0, keep |-> TRUE,
          bad |-> {}, asked |-> "", orc |-> NoAnswer]

Screen(a) == a >= 8192 /\ a < 16384
ToAux(b, a) == Screen(a) /\ b.sw.store80 /\ b.sw.hires /\ b.sw.page2
IO(a) == a >= 49152 /\ a < 49408
ROM(a) == a >= 49408

InImage(a) == a >= Origin /\ a < Origin + Len(Image)
Initially(b, a) == IF Screen(a) /\ b.clr THEN 0
                   ELSE IF InImage(a) THEN Image[a - Origin + 1] ELSE Noise
\* Reading memory that has no side effects
Peek(b, a) == IF ToAux(b, a)
              THEN IF a \in DOMAIN b.aux THEN b.aux[a]
                   ELSE IF b.clrx THEN 0 ELSE Noise
              ELSE IF a \in DOMAIN b.ov THEN b.ov[a] ELSE Initially(b, a)

Fault(b, f) == [b EXCEPT !.bad = @ \cup {f}]
First(b) == b.asked = ""

\* Speaker.  dt: cycles from the start of the instruction to the access.
Tick(b, dt) == [b EXCEPT !.gaps = Append(@, b.since + dt), !.since = 0 - dt]

\* Accesses that work the same for reads and writes
Switch(b, a, dt) ==
  CASE a = 49168 -> [b EXCEPT !.kb = FALSE]
    [] a \in 49200..49215 -> Tick(b, dt)
    [] a = 49232 -> [b EXCEPT !.sw.text = FALSE]
    [] a = 49233 -> [b EXCEPT !.sw.text = TRUE]
    [] a = 49234 -> [b EXCEPT !.sw.mixed = FALSE]
    [] a = 49235 -> [b EXCEPT !.sw.mixed = TRUE]
    [] a = 49236 -> [b EXCEPT !.sw.page2 = FALSE]
    [] a = 49237 -> [b EXCEPT !.sw.page2 = TRUE]
    [] a = 49238 -> [b EXCEPT !.sw.hires = FALSE]
    [] a = 49239 -> [b EXCEPT !.sw.hires = TRUE]
    [] a = 49246 -> [b EXCEPT !.sw.dhires = TRUE]
    [] a = 49247 -> [b EXCEPT !.sw.dhires = FALSE]
    [] OTHER -> Fault(b, "UnexpectedIO")

--------------------------------------------------------------------------
(* The card's four registers *)

Ready(b) == b.w.mode % 2 = 1

\* Answers to what the program asks by reading a register
Ask(b, what) == IF First(b) THEN [b EXCEPT !.asked = what] ELSE b
Poll(b) ==
  LET a == b.w.ptr IN
  CASE a = 1062 /\ First(b) ->
         [Ask(b, "size") EXCEPT !.w = Deliver(@, b.orc.n)]
    [] a = 1027 /\ First(b) /\ b.w.st = SynSent ->
         [Ask(b, "status") EXCEPT !.w =
            CASE b.orc.st = "accept" -> Accepted(@)
              [] b.orc.st = "refuse" -> Refused(@)
              [] OTHER -> @]
    [] OTHER -> b

DataAt(b) ==
  LET w == b.w  a == w.ptr IN
  CASE a = 1025 -> 0
    [] a = 1027 -> w.st
    [] a = 1062 -> Unfreed(w) \div 256
    [] a = 1063 -> Unfreed(w) % 256
    [] a = 1064 -> w.rd \div 256
    [] a = 1065 -> w.rd % 256
    [] InRx(w, a) -> LET p == Position(w, a) IN
                       IF p < w.arrived THEN StreamByte(b, p) ELSE Noise
    [] OTHER -> Reg(w, a)
NoteRead(b) ==
  LET w == b.w IN
  IF ~InRx(w, w.ptr) THEN b
  ELSE LET p == Position(w, w.ptr)
           c == IF p >= w.arrived THEN Fault(b, "ReadUnarrived") ELSE b
           d == IF p # w.next THEN Fault(c, "ReadOutOfOrder") ELSE c IN
         [d EXCEPT !.w.next = w.next + 1]
CardRead(b0, k) ==
  CASE k = 0 -> <<b0.w.mode, b0>>
    [] k = 1 -> <<b0.w.ptr \div 256, b0>>
    [] k = 2 -> <<b0.w.ptr % 256, b0>>
    [] OTHER ->
       LET b == Poll(b0)
           c == NoteRead(IF Ready(b) THEN b ELSE Fault(b, "CardNotReady")) IN
         <<DataAt(b), [c EXCEPT !.w.ptr = Advance(b.w)]>>

CardStore(b, v) ==
  LET w == b.w  a == w.ptr IN
  CASE a = 1025 ->
         LET x == [b EXCEPT !.w = Command(w, v), !.cmds = Append(@, v)]
             y == IF v = 1 /\ ~b.orc.open THEN [x EXCEPT !.w.st = Closed] ELSE x IN
           IF v = 64 /\ ~SaneRecv(w) THEN Fault(y, "FreesTooMuch") ELSE y
    [] a = 1064 -> [b EXCEPT !.w.rd = v * 256 + (@ % 256)]
    [] a = 1065 -> [b EXCEPT !.w.rd = (@ - (@ % 256)) + v]
    [] a \in {1027, 1062, 1063} -> b
    [] InRx(w, a) -> Fault(b, "WriteToReceiveBuffer")
    [] OTHER -> [b EXCEPT !.w.reg = Put(@, a, v)]
CardWrite(b, k, v) ==
  CASE k = 0 -> IF v >= 128 THEN [b EXCEPT !.w = CardReset, !.cmds = <<>>]
                ELSE [b EXCEPT !.w.mode = v]
    [] k = 1 -> [b EXCEPT !.w.ptr = v * 256 + (@ % 256)]
    [] k = 2 -> [b EXCEPT !.w.ptr = (@ - (@ % 256)) + v]
    [] OTHER ->
       LET c == CardStore(IF Ready(b) THEN b ELSE Fault(b, "CardNotReady"), v) IN
         IF c.w.ptr = b.w.ptr THEN [c EXCEPT !.w.ptr = Advance(b.w)] ELSE c

--------------------------------------------------------------------------
(* The bus *)

Card(a) == a >= 49300 /\ a <= 49303

BusRead(b, a, dt) ==
  IF ~IO(a) THEN <<Peek(b, a), b>>
  ELSE IF Card(a) THEN CardRead(b, a - 49300)
  ELSE IF a = 49152 THEN
    LET c == IF First(b) THEN [Ask(b, "key") EXCEPT !.kb = @ \/ b.orc.key] ELSE b
    IN  <<IF c.kb THEN 160 ELSE 32, c>>
  ELSE <<Noise, Switch(b, a, dt)>>

Store(b, a, v) ==
  LET c == IF Screen(a) THEN [b EXCEPT !.stores = Append(@, <<IF ToAux(b, a) THEN 1 ELSE 0, a, v>>)]
           ELSE b IN
  IF Screen(a) /\ ~b.keep /\ b.clr THEN c    \* (never read back)
  ELSE IF ToAux(b, a) THEN [c EXCEPT !.aux = Put(@, a, v)]
  ELSE [c EXCEPT !.ov = Put(@, a, v)]
BusWrite(b, a, v, dt) ==
  IF ROM(a) THEN b
  ELSE IF ~IO(a) THEN Store(b, a, v)
  ELSE IF Card(a) THEN CardWrite(b, a - 49300, v)
  ELSE CASE a = 49152 -> [b EXCEPT !.sw.store80 = FALSE]
         [] a = 49153 -> [b EXCEPT !.sw.store80 = TRUE]
         [] a = 49164 -> [b EXCEPT !.sw.col80 = FALSE]
         [] a = 49165 -> [b EXCEPT !.sw.col80 = TRUE]
         [] OTHER -> Switch(b, a, dt)

\* What the firmware's screen clearing does
ClearScreen(b) ==
  IF Peek(b, 230) # 32 THEN Fault(b, "ClearsOtherMemory")
  ELSE IF ToAux(b, 8192) THEN [b EXCEPT !.clrx = TRUE, !.aux = <<>>]
  ELSE [b EXCEPT !.clr = TRUE,
                 !.ov = [a \in {x \in DOMAIN @ : ~Screen(x)} |-> @[a]]]
===========================================================================
