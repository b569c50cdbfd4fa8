------------------------------- MODULE M6502 -------------------------------
(* The 6502, one instruction at a time, with cycle counts.  (Binary mode     *)
(* arithmetic and documented opcodes only; anything else halts.)             *)
EXTENDS Apple2, Opcodes, Bitwise

CPU0(pc, a, x, y, f) ==
  [pc |-> pc, a |-> a, x |-> x, y |-> y, sp |-> 255, halt |-> "",
   n |-> f \div 128, v |-> (f \div 64) % 2, d |-> (f \div 8) % 2,
   i |-> (f \div 4) % 2, z |-> (f \div 2) % 2, c |-> f % 2, cyc |-> 0]

Flags(s) == s.n * 128 + s.v * 64 + 32 + s.d * 8 + s.i * 4 + s.z * 2 + s.c
SetFlags(s, f) == [s EXCEPT !.n = f \div 128, !.v = (f \div 64) % 2,
                            !.d = (f \div 8) % 2, !.i = (f \div 4) % 2,
                            !.z = (f \div 2) % 2, !.c = f % 2]
NZ(s, v) == [s EXCEPT !.n = v \div 128, !.z = IF v = 0 THEN 1 ELSE 0]
Sgn(v) == IF v < 128 THEN v ELSE v - 256
B2N(b) == IF b THEN 1 ELSE 0

\* The machine: CPU s and bus b, together [s, b].
M(s, b) == [s |-> s, b |-> b]

Reads == {"LDA", "LDX", "LDY", "ADC", "SBC", "AND", "ORA", "EOR", "CMP", "CPX",
          "CPY", "BIT"}
Writes == {"STA", "STX", "STY"}
RMW == {"ASL", "LSR", "ROL", "ROR", "INC", "DEC"}
Branches == {"BPL", "BMI", "BVC", "BVS", "BCC", "BCS", "BNE", "BEQ"}

Length(mode) == CASE mode \in {"imp", "acc"} -> 1
                  [] mode \in {"abs", "abx", "aby", "ind"} -> 3
                  [] OTHER -> 2

Adc(s, v) == LET r == s.a + v + s.c
                 t == r % 256 IN
  NZ([s EXCEPT !.a = t, !.c = r \div 256,
               !.v = IF (s.a >= 128) = (v >= 128) /\ (t >= 128) # (v >= 128)
                     THEN 1 ELSE 0], t)
Cmp(s, r, v) == NZ([s EXCEPT !.c = B2N(r >= v)], (r - v) % 256)

DoRead(s, mn, v) ==
  CASE mn = "LDA" -> NZ([s EXCEPT !.a = v], v)
    [] mn = "LDX" -> NZ([s EXCEPT !.x = v], v)
    [] mn = "LDY" -> NZ([s EXCEPT !.y = v], v)
    [] mn = "ADC" -> IF s.d = 1 THEN [s EXCEPT !.halt = "decimal"] ELSE Adc(s, v)
    [] mn = "SBC" -> IF s.d = 1 THEN [s EXCEPT !.halt = "decimal"] ELSE Adc(s, 255 - v)
    [] mn = "AND" -> LET r == s.a & v IN NZ([s EXCEPT !.a = r], r)
    [] mn = "ORA" -> LET r == s.a | v IN NZ([s EXCEPT !.a = r], r)
    [] mn = "EOR" -> LET r == s.a ^^ v IN NZ([s EXCEPT !.a = r], r)
    [] mn = "CMP" -> Cmp(s, s.a, v)
    [] mn = "CPX" -> Cmp(s, s.x, v)
    [] mn = "CPY" -> Cmp(s, s.y, v)
    [] mn = "BIT" -> [s EXCEPT !.n = v \div 128, !.v = (v \div 64) % 2,
                               !.z = B2N((s.a & v) = 0)]
\* <<result, CPU>> of a shift or count
Modify(s, mn, v) ==
  LET R(r, c) == <<r, NZ([s EXCEPT !.c = c], r)>> IN
  CASE mn = "ASL" -> R((v * 2) % 256, v \div 128)
    [] mn = "LSR" -> R(v \div 2, v % 2)
    [] mn = "ROL" -> R(((v * 2) % 256) + s.c, v \div 128)
    [] mn = "ROR" -> R(v \div 2 + 128 * s.c, v % 2)
    [] mn = "INC" -> R((v + 1) % 256, s.c)
    [] mn = "DEC" -> R((v - 1) % 256, s.c)
Taken(s, mn) ==
  CASE mn = "BPL" -> s.n = 0 [] mn = "BMI" -> s.n = 1
    [] mn = "BVC" -> s.v = 0 [] mn = "BVS" -> s.v = 1
    [] mn = "BCC" -> s.c = 0 [] mn = "BCS" -> s.c = 1
    [] mn = "BNE" -> s.z = 0 [] mn = "BEQ" -> s.z = 1
Implied(s, mn) ==
  CASE mn = "CLC" -> [s EXCEPT !.c = 0] [] mn = "SEC" -> [s EXCEPT !.c = 1]
    [] mn = "CLI" -> [s EXCEPT !.i = 0] [] mn = "SEI" -> [s EXCEPT !.i = 1]
    [] mn = "CLD" -> [s EXCEPT !.d = 0] [] mn = "SED" -> [s EXCEPT !.d = 1]
    [] mn = "CLV" -> [s EXCEPT !.v = 0]
    [] mn = "TAX" -> NZ([s EXCEPT !.x = s.a], s.a)
    [] mn = "TAY" -> NZ([s EXCEPT !.y = s.a], s.a)
    [] mn = "TXA" -> NZ([s EXCEPT !.a = s.x], s.x)
    [] mn = "TYA" -> NZ([s EXCEPT !.a = s.y], s.y)
    [] mn = "TSX" -> NZ([s EXCEPT !.x = s.sp], s.sp)
    [] mn = "TXS" -> [s EXCEPT !.sp = s.x]
    [] mn = "INX" -> LET r == (s.x + 1) % 256 IN NZ([s EXCEPT !.x = r], r)
    [] mn = "DEX" -> LET r == (s.x - 1) % 256 IN NZ([s EXCEPT !.x = r], r)
    [] mn = "INY" -> LET r == (s.y + 1) % 256 IN NZ([s EXCEPT !.y = r], r)
    [] mn = "DEY" -> LET r == (s.y - 1) % 256 IN NZ([s EXCEPT !.y = r], r)
    [] mn = "NOP" -> s
    [] OTHER -> [s EXCEPT !.halt = "illegal"]

Push(b, sp, v) == Store(b, 256 + sp, v)
Word(b, a) == Peek(b, a) + 256 * Peek(b, (a + 1) % 65536)
\* The 6502 does not carry into the high byte of an indirect pointer.
ZWord(b, z) == Peek(b, z % 256) + 256 * Peek(b, (z + 1) % 256)
IndWord(b, a) == Peek(b, a) + 256 * Peek(b, (a - (a % 256)) + ((a + 1) % 256))

Exec(m) ==
  LET s == m.s
      b == m.b
      e == Opcodes[Peek(b, s.pc) + 1]
      mn == e[1]
      mode == e[2]
      op1 == Peek(b, (s.pc + 1) % 65536)
      abs == op1 + 256 * Peek(b, (s.pc + 2) % 65536)
      base == CASE mode \in {"abs", "abx", "aby"} -> abs
                [] mode = "iny" -> ZWord(b, op1)
                [] OTHER -> 0
      index == CASE mode = "abx" -> s.x [] mode \in {"aby", "iny"} -> s.y
                 [] OTHER -> 0
      ea == CASE mode = "zpg" -> op1
              [] mode = "zpx" -> (op1 + s.x) % 256
              [] mode = "zpy" -> (op1 + s.y) % 256
              [] mode = "inx" -> ZWord(b, op1 + s.x)
              [] OTHER -> (base + index) % 65536
      indexed == mode \in {"abx", "aby", "iny"}
      crossed == (base % 256) + index >= 256
      \* where the 6502 looks before it has added the carry
      early == (base - (base % 256)) + ((base + index) % 256)
      n == e[3] + (IF e[4] = 1 /\ crossed THEN 1 ELSE 0)
      next == (s.pc + Length(mode)) % 65536
      go == [s EXCEPT !.pc = next, !.cyc = @ + n]
      Done(t, c) == M(t, [c EXCEPT !.since = @ + (t.cyc - s.cyc)])
  IN
  CASE mn \in Reads ->
         IF mode = "imm" THEN Done(DoRead(go, mn, op1), b)
         ELSE LET b1 == IF indexed /\ crossed /\ IO(early)
                        THEN BusRead(b, early, n - 1)[2] ELSE b
                  r == BusRead(b1, ea, n) IN
                Done(DoRead(go, mn, r[1]), r[2])
    [] mn \in Writes ->
         LET b1 == IF indexed /\ IO(early) THEN BusRead(b, early, n - 1)[2] ELSE b
             v == CASE mn = "STA" -> s.a [] mn = "STX" -> s.x [] OTHER -> s.y IN
           Done(go, BusWrite(b1, ea, v, n))
    [] mn \in RMW ->
         IF mode = "acc"
         THEN LET r == Modify(go, mn, s.a) IN Done([r[2] EXCEPT !.a = r[1]], b)
         ELSE LET r == BusRead(b, ea, n - 2)
                  q == Modify(go, mn, r[1])
                  c == IF IO(ea) THEN BusWrite(r[2], ea, r[1], n - 1) ELSE r[2] IN
                Done(q[2], BusWrite(c, ea, q[1], n))
    [] mn \in Branches ->
         IF ~Taken(s, mn) THEN Done(go, b)
         ELSE LET t == (next + Sgn(op1)) % 65536
                  extra == IF t \div 256 = next \div 256 THEN 1 ELSE 2 IN
                Done([go EXCEPT !.pc = t, !.cyc = @ + extra], b)
    [] mn = "JMP" -> Done([go EXCEPT !.pc = IF mode = "ind" THEN IndWord(b, abs) ELSE abs], b)
    [] mn = "JSR" ->
         LET r == (s.pc + 2) % 65536
             b1 == Push(b, s.sp, r \div 256)
             b2 == Push(b1, (s.sp - 1) % 256, r % 256) IN
           Done([go EXCEPT !.pc = abs, !.sp = (@ - 2) % 256], b2)
    [] mn = "RTS" ->
         LET lo == Peek(b, 256 + ((s.sp + 1) % 256))
             hi == Peek(b, 256 + ((s.sp + 2) % 256)) IN
           Done([go EXCEPT !.pc = (lo + 256 * hi + 1) % 65536, !.sp = (@ + 2) % 256], b)
    [] mn = "RTI" ->
         LET f == Peek(b, 256 + ((s.sp + 1) % 256))
             lo == Peek(b, 256 + ((s.sp + 2) % 256))
             hi == Peek(b, 256 + ((s.sp + 3) % 256)) IN
           Done(SetFlags([go EXCEPT !.pc = lo + 256 * hi, !.sp = (@ + 3) % 256], f), b)
    [] mn = "PHA" -> Done([go EXCEPT !.sp = (@ - 1) % 256], Push(b, s.sp, s.a))
    [] mn = "PHP" -> Done([go EXCEPT !.sp = (@ - 1) % 256], Push(b, s.sp, Flags(s) + 16))
    [] mn = "PLA" -> LET v == Peek(b, 256 + ((s.sp + 1) % 256)) IN
                       Done(NZ([go EXCEPT !.sp = (@ + 1) % 256, !.a = v], v), b)
    [] mn = "PLP" -> LET v == Peek(b, 256 + ((s.sp + 1) % 256)) IN
                       Done(SetFlags([go EXCEPT !.sp = (@ + 1) % 256], v), b)
    [] mn = "BRK" -> M([s EXCEPT !.halt = "brk"], b)
    [] OTHER -> Done(Implied(go, mn), b)
===========================================================================
