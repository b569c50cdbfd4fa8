------------------------------- MODULE W5100 -------------------------------
(* The network card, as far as one TCP client socket needs it: indirect bus  *)
(* interface, socket 0, receive buffer.                                      *)
(*                                                                           *)
(* The stream's bytes are numbered from 0.  arrived: how many have come in;  *)
(* freed: how many the host has given back (RECV command); next: how many    *)
(* the host has read.  Bytes freed..arrived-1 are in the receive buffer,     *)
(* byte p at offset p mod its size.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RxBase == 24576      \* $6000
SynSent == 21
SockInit == 19
Established == 23
Closed == 0

CardReset == [mode |-> 0, ptr |-> 0, reg |-> <<>>, st |-> Closed, rd |-> 0,
              arrived |-> 0, freed |-> 0, next |-> 0]
PowerUp == CardReset

Reg(w, a) == IF a \in DOMAIN w.reg THEN w.reg[a]
             ELSE IF a \in {26, 27} THEN 85 ELSE 0
Put(f, a, v) == IF a \in DOMAIN f THEN [f EXCEPT ![a] = v] ELSE (a :> v) @@ f
RxSize(w) == 1024 * (2 ^ (Reg(w, 26) % 4))
Unfreed(w) == w.arrived - w.freed
Unread(w) == w.arrived - w.next
Room(w) == RxSize(w) - Unfreed(w)
Increments(w) == (w.mode \div 2) % 2 = 1

\* The pointer after an access: it wraps at the end of a socket's buffer.
Advance(w) ==
  IF ~Increments(w) THEN w.ptr
  ELSE IF w.ptr + 1 = RxBase + RxSize(w) THEN RxBase
  ELSE (w.ptr + 1) % 65536

InRx(w, a) == a >= RxBase /\ a < RxBase + RxSize(w)
\* The stream byte an address of the receive buffer stands for.
Position(w, a) == w.freed + ((a - RxBase - w.freed) % RxSize(w))

\* The part of a socket command that the card does by itself.
Command(w, v) ==
  CASE v = 1 -> [w EXCEPT !.st = IF Reg(w, 1024) % 16 = 1 THEN SockInit ELSE Closed]
    [] v = 4 -> IF w.st = SockInit THEN [w EXCEPT !.st = SynSent] ELSE w
    [] v = 8 -> [w EXCEPT !.st = Closed]
    [] v = 16 -> [w EXCEPT !.st = Closed]
    [] v = 64 -> [w EXCEPT !.freed = @ + ((w.rd - @) % 65536)]
    [] OTHER -> w
\* What it gives back is within what it has.
SaneRecv(w) == ((w.rd - w.freed) % 65536) <= Unfreed(w)

\* The server's side of the connection
Accepted(w) == [w EXCEPT !.st = Established, !.rd = 0, !.arrived = 0,
                         !.freed = 0, !.next = 0]
Refused(w) == [w EXCEPT !.st = Closed]
Deliver(w, n) == [w EXCEPT !.arrived = @ + n]
===========================================================================
