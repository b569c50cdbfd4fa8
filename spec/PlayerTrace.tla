---------------------------- MODULE PlayerTrace ----------------------------
(* Executes the assembled player's routines, instruction by instruction, on  *)
(* given operands, and checks what each does.                                *)
(*                                                                           *)
(* The first event holds the program; each Op event an operation, the one    *)
(* after it, and the registers it starts with.  Cpu events are single        *)
(* instructions that another emulator has executed, to check this one.       *)
EXTENDS TraceLib

Program == Trace[1]
PImage == TLCEval(Program.image)
POrigin == Program.origin
Code == INSTANCE M6502 WITH StreamByte <- LAMBDA b, p : IF p - b.base < Len(b.stream) THEN b.stream[p - b.base + 1] ELSE 170,
          Image <- PImage, Origin <- POrigin, Noise <- 165
Start == 0

AddrOf(op) == Program.ticks[32 * (op[2] - 32) + (op[1] - 4) \div 2 + 1][3]
Entries == {x[3] : x \in Range(Program.ticks)} \cup {Program.ack, Program.term, Program.nop}
IsEntry == TLCEval([a \in 0..49151 |-> a \in Entries])

\* To the next operation; pcs: addresses of instructions executed.
RECURSIVE Run(_, _, _)
Run(m, pcs, k) ==
  IF k = 0 THEN [m |-> [m EXCEPT !.s.halt = "runaway"], pcs |-> pcs]
  ELSE LET t == TLCEval(Code!Exec(m))
           q == pcs \cup {m.s.pc} IN
         IF t.s.halt # "" \/ (t.s.pc < 49152 /\ IsEntry[t.s.pc])
         THEN [m |-> t, pcs |-> q]
         ELSE Run(t, q, k - 1)
RECURSIVE RunToTick(_, _)
RunToTick(m, k) ==
  IF k = 0 \/ m.s.halt # "" \/ m.b.gaps # <<>> THEN m
  ELSE RunToTick(TLCEval(Code!Exec(m)), k - 1)

\* Speaker ticks this many cycles apart are what the operation is called
\* after; two are one less, as no instruction sequence fits.  (The program's
\* comment says 41 for 40, but its own sum of cycles is 39.)
Gap(t) == IF t \in {22, 40} THEN t - 1 ELSE t
Period == 73

Op(s, e) ==
  LET to == AddrOf(e.next)
      at == e.at - 24576
      b0 == [Code!Fresh EXCEPT
        !.w.mode = 3, !.w.st = Code!Established, !.w.ptr = e.at,
        !.w.reg = (26 :> 3), !.w.next = at, !.w.freed = at,
        !.w.arrived = at + 8192, !.base = at,
        !.stream = <<e.c>> \o e.offs \o <<to \div 256, to % 256>>
                   \o <<1, 2, 3, 4, 5, 6, 7>>,
        !.sw.store80 = e.aux, !.sw.hires = TRUE, !.sw.page2 = e.aux,
        !.clr = TRUE, !.clrx = TRUE]
      r == Run(Code!M(Code!CPU0(AddrOf(e.op), e.a, 0, e.y, e.f), b0), {}, 200)
      m == r.m
      g == m.b.gaps
      m2 == RunToTick([m EXCEPT !.b.gaps = <<>>], 50)
      bank == IF e.aux THEN 1 ELSE 0 IN
  Res(s, When(m.s.halt # "" \/ m.b.bad # {}, <<"C07", "Runs">>)
    \cup When(m.s.pc # to, <<"C07", "Dispatch">>)
    \cup When(m.b.w.next - b0.w.next # 7, <<"C07", "SevenBytes">>)
    \cup When({<<x[1], x[2], x[3]>> : x \in Range(m.b.stores)}
                # {<<bank, 256 * e.op[2] + o, e.c>> : o \in Range(e.offs)}
              \/ Len(m.b.stores) # 4, <<"C07", "Stores">>)
    \cup When({<<x[2], x[3]>> : x \in Range(m.b.stores)}
                # {<<256 * e.op[2] + o, e.c>> : o \in Range(e.offs)}
              \/ Len(g) # 2 \/ (Len(g) = 2 /\ g[2] # Gap(e.op[1])),
              <<"C05", "NotThatOperation">>)
    \cup When(Len(g) # 2, <<"C07", "TwoTicks">>)
    \cup When(Len(g) = 2 /\ g[2] # Gap(e.op[1]), <<"C07", "DutyCycle">>)
    \cup When(Len(g) = 2 /\ (m2.b.gaps = <<>> \/ g[2] + m2.b.gaps[1] # Period),
              <<"C07", "Period">>)
    \cup When(m.s.x # 0 \/ m.s.d # 0, <<"C07", "Registers">>)
    \cup When(\E a \in DOMAIN m.b.ov : a >= 512 /\ ~(a \in 8192..16383)
                /\ {a, a - 1, a - 2} \cap r.pcs = {}, <<"C07", "OtherStores">>))

\* One instruction, against another emulator.
Cpu(s, e) ==
  LET b0 == [Code!Fresh EXCEPT !.ov = [a \in {x[1] : x \in Range(e.mem)} |->
                  LET x == CHOOSE y \in Range(e.mem) : y[1] = a IN x[2]]]
      m == Code!Exec(Code!M([Code!CPU0(e.pc, e.a, e.x, e.y, e.p) EXCEPT !.sp = e.sp], b0)) IN
  Res(s, When(<<m.s.pc, m.s.a, m.s.x, m.s.y, m.s.sp, Code!Flags(m.s), m.s.cyc>> # e.res,
              <<"X", "CpuModel">>)
    \cup When(\E x \in Range(e.after) : Code!Peek(m.b, x[1]) # x[2], <<"X", "CpuModel">>))

Step(s, e) == CASE e.ev = "Program" -> Ok(s)
                [] e.ev = "Op" -> Op(s, e)
                [] e.ev = "Cpu" -> Cpu(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
