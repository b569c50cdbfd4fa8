----------------------------- MODULE PlayerCode -----------------------------
(* The assembled player, executed instruction by instruction in every        *)
(* environment: TLC explores all answers (bytes arrived so far, key pressed, *)
(* connection accepted or refused) the program can get each time it looks,   *)
(* and every step is judged against the machine of Player.tla.               *)
EXTENDS M6502, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.PLAYER)
PImage == TLCEval(Cfg.image)
POrigin == Cfg.origin
Stream == TLCEval(Cfg.stream)
Total == Len(Stream)
PStreamByte(b, p) == IF p < Total THEN Stream[p + 1] ELSE 0
PNoise == 165

Frame == 2048
Attempts == 6          \* "5 retries"
HeaderLen == 7
OpLen == 7
Period == 73

Rng(f) == {f[x] : x \in DOMAIN f}
TickEntries == {x[3] : x \in Rng(Cfg.ticks)}
Entries == TickEntries \cup {Cfg.ack, Cfg.term}
\* what a code address is: page of a tick operation, 1 ack, 2 term, 0 none
Kind == TLCEval([a \in 0..49151 |-> IF a \in TickEntries THEN 3
                                    ELSE IF a = Cfg.ack THEN 1
                                    ELSE IF a = Cfg.term THEN 2 ELSE 0])
\* Its speaker ticks are this many cycles apart (one less: see PlayerTrace)
TickAt == TLCEval([a \in TickEntries |->
                     LET t == (CHOOSE x \in Rng(Cfg.ticks) : x[3] = a)[1] IN
                     IF t \in {22, 40} THEN t - 1 ELSE t])
PageAt == TLCEval([a \in TickEntries |-> (CHOOSE x \in Rng(Cfg.ticks) : x[3] = a)[2]])

--------------------------------------------------------------------------
(* Firmware entry points the program calls *)
Return(m) ==
  LET lo == Peek(m.b, 256 + ((m.s.sp + 1) % 256))
      hi == Peek(m.b, 256 + ((m.s.sp + 2) % 256)) IN
  [m EXCEPT !.s.pc = (lo + 256 * hi + 1) % 65536, !.s.sp = (@ + 2) % 256]
Clobbered(m) == [m EXCEPT !.s.a = 90, !.s.x = 33, !.s.y = 77, !.s.c = 1, !.s.n = 0, !.s.z = 1]
ParamByte(m, k) == LET lo == Peek(m.b, 256 + ((m.s.sp + 1) % 256))
                       hi == Peek(m.b, 256 + ((m.s.sp + 2) % 256)) IN
                   Peek(m.b, (lo + 256 * hi + k) % 65536)
Firmware == {62434, 62450, 65005, 48896}
Call(m) ==
  CASE m.s.pc = 62434 ->    \* HGR: shows the mixed screen, then clears it
         Clobbered(Return([m EXCEPT !.b = ClearScreen([@ EXCEPT
           !.ov = Put(@, 230, 32), !.sw.hires = TRUE, !.sw.text = FALSE,
           !.sw.mixed = TRUE, !.sw.page2 = FALSE])]))
    [] m.s.pc = 62450 -> Clobbered(Return([m EXCEPT !.b = ClearScreen(@)]))
    [] m.s.pc = 65005 -> Return([m EXCEPT !.b.out = Append(@, m.s.a)])
    [] OTHER ->             \* ProDOS
         LET p == ParamByte(m, 2) + 256 * ParamByte(m, 3) IN
         IF ParamByte(m, 1) = 101 /\ Peek(m.b, p) = 4
         THEN [m EXCEPT !.s.halt = "quit"] ELSE [m EXCEPT !.s.halt = "badcall"]
Exec1(m) == IF m.s.pc < 48896 THEN Exec(m)
            ELSE IF m.s.pc \in Firmware THEN Call(m)
            ELSE [m EXCEPT !.s.halt = "lost"]

\* To the next question, operation, or end.
RECURSIVE Run(_, _)
Run(m, k) ==
  IF k = 0 THEN [m EXCEPT !.s.halt = "runaway"]
  ELSE LET t == TLCEval(Exec1(m)) IN
         IF t.s.halt # "" \/ t.b.asked # "" \/
              (t.s.pc < 49152 /\ Kind[t.s.pc] # 0)
         THEN t ELSE Run(t, k - 1)
Big(m, ans) ==
  Run([m EXCEPT !.s.cyc = 0, !.b.gaps = <<>>, !.b.stores = <<>>, !.b.cmds = <<>>,
                !.b.out = <<>>, !.b.asked = "", !.b.orc = ans], 2000)

--------------------------------------------------------------------------
VARIABLES m,      \* the machine
          ctx,    \* what the specification knows
          did,    \* the last answer, for counterexamples
          bad
cvars == <<m, ctx, did, bad>>

Ctx0 == [ph |-> "connecting", tries |-> 0,
         size |-> 0,          \* bytes in the buffer when the program last looked
         at |-> 0,            \* position of the first byte not accounted for
         timing |-> FALSE, sum |-> 0, waits |-> 0, start |-> FALSE,
         duty |-> 0,          \* ticks the last operation's pulse took, 0: n/a
         pend |-> FALSE]  \* a key was pressed while the program was not looking
Init == /\ m = M(CPU0(Cfg.entry, Cfg.regs[1], Cfg.regs[2], Cfg.regs[3], 0),
                 \* nobody says which part of the screen was text before
                 [Fresh EXCEPT !.keep = FALSE, !.sw.page2 = Cfg.page2,
                               !.sw.mixed = TRUE])
        /\ ctx = Ctx0 /\ did = NoAnswer /\ bad = {}

B == m.b
Buffered == ctx.size >= Frame
\* What follows cannot be judged any more, by whatever property.
Lost == <<"X", "Lost">>
When(c, x) == IF c THEN {x} ELSE {}
AddrAt(p) == 256 * PStreamByte(0, p) + PStreamByte(0, p + 1)
SumSeq(g) == LET f[i \in 0..Len(g)] == IF i = 0 THEN 0 ELSE f[i - 1] + g[i] IN f[Len(g)]
Cadence(g) == \A i \in DOMAIN g : g[i] \in 34..39

\* n registers from r hold the address the program was configured with
Addressed(b, r, n, table) ==
  LET now == [i \in 1..n |-> Reg(b.w, r + i - 1)] IN
  IF table = <<>> THEN now # [i \in 1..n |-> 0] ELSE now = table
\* How the card must have been set up before it is told to connect
Configured(b) ==
  /\ b.w.mode = 3
  /\ Reg(b.w, 1024) % 16 = 1                  \* TCP
  /\ Reg(b.w, 26) % 4 = 3                     \* 8 KB for socket 0
  /\ Reg(b.w, 1028) * 256 + Reg(b.w, 1029) > 0   \* a local port
  /\ Addressed(b, 9, 6, Cfg.mac)
  /\ Addressed(b, 15, 4, Cfg.own)
  /\ Addressed(b, 1036, 4, Cfg.server)
  /\ Reg(b.w, 1040) * 256 + Reg(b.w, 1041) = Cfg.port

Vector(b) == Peek(b, 1010) + 256 * Peek(b, 1011)
VectorValid(b) == Peek(b, 1012) = (Peek(b, 1011) ^^ 165)
Displayed(b, mode) ==
  /\ ~b.sw.text /\ ~b.sw.mixed /\ b.sw.hires /\ ~b.sw.page2 /\ b.clr
  /\ mode = 1 => b.sw.dhires /\ b.sw.col80 /\ b.sw.store80 /\ b.clrx
  /\ mode = 0 => ~(b.sw.dhires /\ b.sw.col80)

\* Each phase: <<next context, clauses>> of a step from m to t with answer a.
Connecting(t, a) ==
  LET gaveUp == ctx.tries = Attempts IN
  CASE t.s.halt = "brk" ->
         <<[ctx EXCEPT !.ph = "error"],
           When(~gaveUp /\ a.open, <<"C10", "GivesUpEarly">>)
           \cup When(t.b.out = <<>>, <<"C10", "NoErrorMessage">>)>>
    [] t.s.halt = "" /\ t.b.asked = "status" ->
         <<[ctx EXCEPT !.ph = IF a.st = "accept" THEN "header" ELSE @,
                       !.tries = IF a.st = "refuse" THEN @ + 1 ELSE @],
           When(gaveUp, <<"C10", "KeepsTrying">>)
           \cup When(~Configured(t.b), <<"C10", "CardSetup">>)
           \cup When(t.b.cmds \notin {<<>>, <<1, 4>>}, <<"C10", "Commands">>)
           \cup When(~a.open, <<"C10", "OpenFailureIgnored">>)>>
    [] OTHER -> <<ctx, {<<"C10", "Connect">>, Lost}>>

Header(t, a) ==
  CASE t.s.halt = "" /\ t.b.asked = "size" /\ t.b.w.next = 0 ->
         <<[ctx EXCEPT !.size = Unfreed(t.b.w)],
           When(Buffered, <<"C08", "Stalled">>)
           \cup When(t.b.gaps # <<>>, <<"C10", "TicksBeforePlaying">>)>>
    [] t.s.halt = "" /\ t.b.asked = "size" /\ t.b.w.next = HeaderLen ->
         <<[ctx EXCEPT !.ph = "slow", !.size = Unfreed(t.b.w), !.at = HeaderLen,
                       !.start = TRUE],
           When(ctx.size < HeaderLen, <<"C10", "PlaysBeforeHeader">>)
           \cup When(~Displayed(t.b, PStreamByte(0, 6)), <<"C10", "Display">>)
           \cup When(~VectorValid(t.b), <<"C10", "ResetVector">>)
           \cup When(LET r == Run([m EXCEPT !.s.pc = Vector(t.b), !.b = [t.b EXCEPT !.asked = ""]], 200)
                     IN r.s.halt # "quit" \/ VectorValid(r.b), <<"C10", "ResetQuits">>)
           \cup When(t.b.w.freed # 0, <<"C08", "Frees">>)>>
    [] OTHER -> <<ctx, {<<"C10", "Header">>, Lost}>>

\* Arriving at the operation that the stream names next
Dispatched(t, p) == t.s.halt = "" /\ t.b.asked = "" /\ t.b.w.next = p + 2
                    /\ t.s.pc = AddrAt(p)
OpCtx(c, t) == [c EXCEPT !.ph = "op", !.at = t.b.w.next, !.size = 0]
Slow(t, a) ==
  CASE t.s.halt = "" /\ t.b.asked = "size" ->
         <<[ctx EXCEPT !.size = Unfreed(t.b.w), !.waits = IF Len(t.b.gaps) = 1 THEN t.b.gaps[1] ELSE 0,
                       !.timing = FALSE, !.sum = 0],
           When(Buffered, <<"C08", "Stalled">>)
           \cup When(t.b.w.next # ctx.at \/ t.b.w.freed # m.b.w.freed, <<"C08", "ConsumesWhileWaiting">>)
           \cup When(Len(t.b.gaps) # 1 \/ (ctx.waits # 0 /\ t.b.gaps # <<ctx.waits>>),
                     <<"C09", "WaitInterval">>)>>
    [] t.s.halt = "" /\ t.b.asked = "key" ->
         <<[ctx EXCEPT !.ph = IF t.b.kb THEN "pause" ELSE "go", !.pend = FALSE,
                       !.sum = @ + SumSeq(t.b.gaps)],
           When(~Buffered, <<"C08", "PlaysEarly">>)
           \cup When(t.b.kb # (a.key \/ ctx.pend), <<"C10", "StrobeLeft">>)
           \cup When(~Cadence(t.b.gaps), <<"C09", "Cadence">>)>>
    [] Dispatched(t, ctx.at) ->
         <<OpCtx(ctx, t),
           {<<"C10", "IgnoresKeys">>}
           \cup When(~Buffered, <<"C08", "PlaysEarly">>)>>
    [] OTHER -> <<ctx, {<<"C08", "SlowPath">>, Lost}>>
Go(t, a) ==
  IF Dispatched(t, ctx.at)
  THEN <<[OpCtx(ctx, t) EXCEPT !.sum = @ + SumSeq(t.b.gaps)],
         When(~Cadence(t.b.gaps), <<"C09", "Cadence">>)>>
  ELSE <<ctx, {<<"C08", "Dispatch">>, Lost}>>
\* A key has been pressed; playback goes on at the next one.
Pause(t, a) ==
  IF t.s.halt = "" /\ t.b.asked = "key"
  THEN <<[ctx EXCEPT !.ph = IF t.b.kb THEN "resume" ELSE "pause", !.timing = FALSE, !.start = FALSE],
         When(t.b.w.next # ctx.at \/ t.b.w.freed # m.b.w.freed \/ t.b.stores # <<>>,
              <<"C10", "PlaysWhilePaused">>)
         \cup When(t.b.kb # a.key, <<"C10", "StrobeLeft">>)>>
  ELSE <<ctx, {<<"C10", "PauseIgnored">>, Lost}>>
Resume(t, a) == IF Dispatched(t, ctx.at)
                THEN <<OpCtx(ctx, t), {}>> ELSE <<ctx, {<<"C10", "DoesNotResume">>, Lost}>>

\* The first tick of an operation ends the slow path.
Timing(g) ==
  When(ctx.timing /\ (g = <<>> \/ ctx.sum + g[1] # 2 * Period \/ ~Cadence(<<g[1]>>)),
       <<"C09", "TwoPeriods">>)
  \cup When(ctx.start /\ ~ctx.timing /\ (g = <<>> \/ ctx.sum + g[1] # Period),
            <<"C09", "NoExtraDelay">>)
  \cup When(ctx.duty # 0 /\ (g = <<>> \/ ctx.duty + g[1] # Period), <<"C09", "Period">>)
Untimed(c) == [c EXCEPT !.timing = FALSE, !.start = FALSE, !.sum = 0, !.waits = 0, !.duty = 0]

\* The end: nothing more is read, a new key press quits.
Terminating(t, a) ==
  IF t.s.halt = "" /\ t.b.asked = "key"
  THEN <<[Untimed(ctx) EXCEPT !.ph = IF t.b.kb THEN "quitting" ELSE "term"],
         When(t.b.kb # a.key, <<"C10", "QuitsEarly">>)
         \cup When(t.b.w.next # m.b.w.next \/ t.b.stores # <<>> \/ t.b.gaps # <<>>,
                   <<"C10", "PlaysAfterEnd">>)>>
  ELSE <<ctx, {<<"C10", "QuitsEarly">>, Lost}>>
Op(t, a, key) ==
  LET k == Kind[m.s.pc]
      g == t.b.gaps
      p == ctx.at IN
  CASE k = 3 ->
         LET x == 256 * PageAt[m.s.pc]
             bank == IF ToAux(m.b, 8192) THEN 1 ELSE 0
             want == {<<bank, x + PStreamByte(0, p + i), PStreamByte(0, p)>> : i \in 1..4}
             \* the bank named by the ACK that ended the frame before this one
             named == IF p >= Frame /\ PStreamByte(0, Frame * (p \div Frame) - 2) = 85
                      THEN 1 ELSE 0 IN
         <<[OpCtx(Untimed(ctx), t) EXCEPT !.duty = IF Len(g) = 2 THEN g[2] ELSE 0],
           (IF Dispatched(t, p + 5) THEN {} ELSE {<<"C08", "Dispatch">>, Lost})
           \cup When(Rng(t.b.stores) # want \/ Len(t.b.stores) # 4, <<"C08", "Executes">>)
           \cup When(\E y \in Rng(t.b.stores) : y[1] # named, <<"C03", "StoredInOtherBank">>)
           \cup When(Rng(t.b.stores) # {<<named, y[2], y[3]>> : y \in want} \/ Len(t.b.stores) # 4,
                     <<"C04", "PlayerStoresOtherwise">>)
           \cup When(g = <<>> \/ Len(g) # 2 \/ (Len(g) = 2 /\ g[2] # TickAt[m.s.pc]),
                     <<"C06", "PlayerTicksOtherwise">>)
           \cup When(t.b.w.freed # m.b.w.freed, <<"C08", "Frees">>)
           \cup When(Len(g) # 2, <<"C09", "Ticks">>)
           \cup Timing(g)>>
    [] k = 1 ->
         <<[Untimed(ctx) EXCEPT !.ph = "slow", !.at = p + 2, !.size = Unfreed(t.b.w),
                       !.timing = TRUE, !.start = TRUE, !.pend = key,
                       !.sum = IF g = <<>> THEN 0 ELSE SumSeq(Tail(g))],
           (IF t.s.halt = "" /\ t.b.asked = "size" THEN {} ELSE {<<"C08", "Ack">>, Lost})
           \cup When(t.b.w.next # p + 2, <<"C08", "AckReads">>)
           \cup When(t.b.w.freed # m.b.w.freed + Frame, <<"C08", "FreesAFrame">>)
           \cup When(t.b.sw.page2 # (PStreamByte(0, p) = 85), <<"C08", "Steers">>)
           \cup When(t.b.stores # <<>>, <<"C08", "Executes">>)
           \cup When(Len(g) < 2 \/ ~Cadence(Tail(g)), <<"C09", "Cadence">>)
           \cup Timing(g)>>
    [] OTHER -> Terminating(t, a)
Quitting(t, a) ==
  <<[ctx EXCEPT !.ph = "done"],
    When(t.s.halt # "quit", <<"C10", "Quit">>)
    \cup When(VectorValid(t.b), <<"C10", "ResetVectorLeft">>)>>

Judge(t, a, key) ==
  LET r == CASE ctx.ph = "connecting" -> Connecting(t, a)
             [] ctx.ph = "header" -> Header(t, a)
             [] ctx.ph = "slow" -> Slow(t, a)
             [] ctx.ph = "go" -> Go(t, a)
             [] ctx.ph = "pause" -> Pause(t, a)
             [] ctx.ph = "resume" -> Resume(t, a)
             [] ctx.ph = "op" -> Op(t, a, key)
             [] ctx.ph = "term" -> Terminating(t, a)
             [] ctx.ph = "quitting" -> Quitting(t, a)
      all == r[2] \cup {<<"C08", f>> : f \in t.b.bad}
  IN <<r[1], {x \in all : x[1] \in {IOEnv.PROP, "X"}}>>

--------------------------------------------------------------------------
(* Everything that can be answered *)

Arrivals(w) ==
  LET most == IF Room(w) < Total - w.arrived THEN Room(w) ELSE Total - w.arrived
      want == {0} \cup {w.freed + k - w.arrived : k \in Rng(Cfg.levels)} IN
  {IF n > most THEN most ELSE n : n \in {k \in want : k >= 0}}
Answers(t) ==
  CASE t.b.asked = "size" -> {[NoAnswer EXCEPT !.n = n] : n \in Arrivals(m.b.w)}
    [] t.b.asked = "key" -> {[NoAnswer EXCEPT !.key = k] : k \in BOOLEAN}
    [] t.b.asked = "status" -> {[NoAnswer EXCEPT !.st = x] : x \in Rng(Cfg.status)}
    [] OTHER -> {NoAnswer}
\* A key pressed when the program is not looking
Early == IF ctx.ph = "op" /\ Kind[m.s.pc] \in {1, 2} /\ Cfg.early
         THEN {FALSE, TRUE} ELSE {FALSE}
Opens(t) == IF t.b.cmds # <<>> /\ t.b.cmds[1] = 1 /\ Cfg.openfails
            THEN {[NoAnswer EXCEPT !.open = FALSE]} ELSE {}

Over == ctx.ph \in {"error", "done"} \/ bad # {}
Next == LET ph == ctx.ph IN
        /\ ~Over
        /\ \E key \in Early :
           \E probe \in {TLCEval(Big([m EXCEPT !.b.kb = @ \/ key], NoAnswer))} :
           \E a \in Answers(probe) \cup Opens(probe) :
             \E t \in {IF a = NoAnswer THEN probe ELSE TLCEval(Big([m EXCEPT !.b.kb = @ \/ key], a))} :
             \E j \in {TLCEval(Judge(t, a, key))} :
               /\ m' = t /\ ctx' = j[1] /\ bad' = j[2] /\ did' = a
               /\ (j[1].ph = ph \/ j[1].ph \in {"op", "slow", "go"}
                   \/ PrintT(<<"REACHED", j[1].ph>>))
CodeSpec == Init /\ [][Next]_cvars

Conforms == bad = {}
\* The answer is not part of the state, nor are the logs of the last step.
View == <<m.s, m.b.ov, m.b.sw, m.b.kb, m.b.w, m.b.asked, ctx, bad>>
Alias == [phase |-> ctx.ph, at |-> ctx.at, size |-> ctx.size,
          arrived |-> m.b.w.arrived, freed |-> m.b.w.freed, next |-> m.b.w.next,
          answer |-> did, bad |-> bad, pc |-> m.s.pc, gaps |-> m.b.gaps]
===========================================================================
