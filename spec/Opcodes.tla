------------------------------- MODULE Opcodes -------------------------------
(* The documented opcodes of the NMOS 6502: mnemonic, addressing mode, cycles,*)
(* and whether crossing a page takes one more cycle.                          *)
EXTENDS Sequences

Opcodes == <<
  <<"BRK", "imp", 7, 0>>, <<"ORA", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ORA", "zpg", 3, 0>>, <<"ASL", "zpg", 5, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"PHP", "imp", 3, 0>>, <<"ORA", "imm", 2, 0>>, <<"ASL", "acc", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ORA", "abs", 4, 0>>, <<"ASL", "abs", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BPL", "rel", 2, 0>>, <<"ORA", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ORA", "zpx", 4, 0>>, <<"ASL", "zpx", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CLC", "imp", 2, 0>>, <<"ORA", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ORA", "abx", 4, 1>>, <<"ASL", "abx", 7, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"JSR", "abs", 6, 0>>, <<"AND", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BIT", "zpg", 3, 0>>, <<"AND", "zpg", 3, 0>>, <<"ROL", "zpg", 5, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"PLP", "imp", 4, 0>>, <<"AND", "imm", 2, 0>>, <<"ROL", "acc", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BIT", "abs", 4, 0>>, <<"AND", "abs", 4, 0>>, <<"ROL", "abs", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BMI", "rel", 2, 0>>, <<"AND", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"AND", "zpx", 4, 0>>, <<"ROL", "zpx", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"SEC", "imp", 2, 0>>, <<"AND", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"AND", "abx", 4, 1>>, <<"ROL", "abx", 7, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"RTI", "imp", 6, 0>>, <<"EOR", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"EOR", "zpg", 3, 0>>, <<"LSR", "zpg", 5, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"PHA", "imp", 3, 0>>, <<"EOR", "imm", 2, 0>>, <<"LSR", "acc", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"JMP", "abs", 3, 0>>, <<"EOR", "abs", 4, 0>>, <<"LSR", "abs", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BVC", "rel", 2, 0>>, <<"EOR", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"EOR", "zpx", 4, 0>>, <<"LSR", "zpx", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CLI", "imp", 2, 0>>, <<"EOR", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"EOR", "abx", 4, 1>>, <<"LSR", "abx", 7, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"RTS", "imp", 6, 0>>, <<"ADC", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ADC", "zpg", 3, 0>>, <<"ROR", "zpg", 5, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"PLA", "imp", 4, 0>>, <<"ADC", "imm", 2, 0>>, <<"ROR", "acc", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"JMP", "ind", 5, 0>>, <<"ADC", "abs", 4, 0>>, <<"ROR", "abs", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BVS", "rel", 2, 0>>, <<"ADC", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ADC", "zpx", 4, 0>>, <<"ROR", "zpx", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"SEI", "imp", 2, 0>>, <<"ADC", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"ADC", "abx", 4, 1>>, <<"ROR", "abx", 7, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"STA", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"STY", "zpg", 3, 0>>, <<"STA", "zpg", 3, 0>>, <<"STX", "zpg", 3, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"DEY", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>, <<"TXA", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"STY", "abs", 4, 0>>, <<"STA", "abs", 4, 0>>, <<"STX", "abs", 4, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BCC", "rel", 2, 0>>, <<"STA", "iny", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"STY", "zpx", 4, 0>>, <<"STA", "zpx", 4, 0>>, <<"STX", "zpy", 4, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"TYA", "imp", 2, 0>>, <<"STA", "aby", 5, 0>>, <<"TXS", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"STA", "abx", 5, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"LDY", "imm", 2, 0>>, <<"LDA", "inx", 6, 0>>, <<"LDX", "imm", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"LDY", "zpg", 3, 0>>, <<"LDA", "zpg", 3, 0>>, <<"LDX", "zpg", 3, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"TAY", "imp", 2, 0>>, <<"LDA", "imm", 2, 0>>, <<"TAX", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"LDY", "abs", 4, 0>>, <<"LDA", "abs", 4, 0>>, <<"LDX", "abs", 4, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BCS", "rel", 2, 0>>, <<"LDA", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"LDY", "zpx", 4, 0>>, <<"LDA", "zpx", 4, 0>>, <<"LDX", "zpy", 4, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CLV", "imp", 2, 0>>, <<"LDA", "aby", 4, 1>>, <<"TSX", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"LDY", "abx", 4, 1>>, <<"LDA", "abx", 4, 1>>, <<"LDX", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>,
  <<"CPY", "imm", 2, 0>>, <<"CMP", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CPY", "zpg", 3, 0>>, <<"CMP", "zpg", 3, 0>>, <<"DEC", "zpg", 5, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"INY", "imp", 2, 0>>, <<"CMP", "imm", 2, 0>>, <<"DEX", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CPY", "abs", 4, 0>>, <<"CMP", "abs", 4, 0>>, <<"DEC", "abs", 3, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BNE", "rel", 2, 0>>, <<"CMP", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"CMP", "zpx", 4, 0>>, <<"DEC", "zpx", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CLD", "imp", 2, 0>>, <<"CMP", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"CMP", "abx", 4, 1>>, <<"DEC", "abx", 7, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CPX", "imm", 2, 0>>, <<"SBC", "inx", 6, 0>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CPX", "zpg", 3, 0>>, <<"SBC", "zpg", 3, 0>>, <<"INC", "zpg", 5, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"INX", "imp", 2, 0>>, <<"SBC", "imm", 2, 0>>, <<"NOP", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"CPX", "abs", 4, 0>>, <<"SBC", "abs", 4, 0>>, <<"INC", "abs", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"BEQ", "rel", 2, 0>>, <<"SBC", "iny", 5, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"SBC", "zpx", 4, 0>>, <<"INC", "zpx", 6, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"SED", "imp", 2, 0>>, <<"SBC", "aby", 4, 1>>, <<"ILL", "imp", 2, 0>>, <<"ILL", "imp", 2, 0>>,
  <<"ILL", "imp", 2, 0>>, <<"SBC", "abx", 4, 1>>, <<"INC", "abx", 7, 0>>, <<"ILL", "imp", 2, 0>>
>>
==============================================================================
