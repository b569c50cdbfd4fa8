---------------------------- MODULE StreamTrace ----------------------------
(* Validates the byte stream of one whole transcoded movie against Mux (the  *)
(* transport), the player's screen (what each store does), the audio track   *)
(* and the video clock.                                                      *)
(*                                                                           *)
(* Line 1 (Sym): the player's operation addresses.  Then, for each movie, a  *)
(* Movie event (mode, frame rate, audio rate, the audio levels, the limit)   *)
(* and one Op event per operation the encoder hands out: d = the changes in  *)
(* the encoder's picture of the screen since the previous operation, b = the *)
(* bytes the stream then produced.  End closes the stream.  The driver       *)
(* interprets nothing.                                                       *)
EXTENDS TraceLib

Sym == Trace[1]
M(s) == Trace[s.m]       \* the movie being transcoded
\* M(s).ids: id of each source frame (<<>>: not identifiable)

Mx == INSTANCE Mux WITH Frame <- 2048, OpLen <- 7, AckLen <- 4, TermLen <- 2,
        Limits <- {}, Supplies <- {}, dual <- 0, limit <- 0, supply <- 0,
        pos <- 0, bank <- 0, phase <- 0, used <- 0, log <- 0

\* Address -> operation.  Ticks are listed by (page - 32) * 32 + (tick - 4)/2.
TickAddrs == {Sym.ticks[i] : i \in 1..1024}
TickIndex == [a \in TickAddrs |-> (CHOOSE i \in 1..1024 : Sym.ticks[i] = a) - 1]
OpPage(a) == 32 + TickIndex[a] \div 32
OpTick(a) == 4 + 2 * (TickIndex[a] % 32)

Hole(off) == off % 128 >= 120

Blank == [p \in 32..63 |-> [o \in 0..255 |-> 0]]

Fresh(m) ==
  [phase |-> "start", m |-> m, pos |-> 0, bank |-> 0, k |-> 0, frames |-> 0,
          cur |-> 0, terms |-> 0,
          scr |-> [b \in 0..1 |-> Blank]]
Start == [Fresh(0) EXCEPT !.phase = "none"]

--------------------------------------------------------------------------
(* Video clock *)
Pc == INSTANCE Pacing WITH Rates <- {}, Skips <- {}, Frames <- {}, Samples <- {},
        rate <- 0, skip <- 0, nframes <- 0, nsamples <- 0, k <- 0, taken <- 0,
        target <- 0, done <- 0
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
\* In lowest terms, for the numbers to stay small in long movies
Div(m) == GCD(m.rate * m.den, m.num)
Due(m, k, f) ==
  Pc!FrameDue(m.num \div Div(m), (m.rate * m.den) \div Div(m), k, f)
Strictly(m, k, f) ==
  Pc!FrameOverdue(m.num \div Div(m), (m.rate * m.den) \div Div(m), k, f)
Exact(m) == Pc!ExactPeriod(m.num, m.rate * m.den)
Used(m, f) == Pc!FrameUsed(m.skip, f)

\* One sample passes; c is the identifying byte if it was stored, else -1.
\* Exactly on the tick, a frame rate that cannot be represented exactly may
\* be rounded either way: accept both.
Advance(s, c) ==
  LET m == M(s)
      k == s.k + 1
      new == [s EXCEPT !.k = k, !.frames = @ + 1,
                       !.cur = IF Used(m, s.frames + 1) THEN s.frames + 1 ELSE @]
      old == [s EXCEPT !.k = k] IN
  IF s.frames >= m.nframes THEN old
  ELSE IF Strictly(m, k, s.frames) THEN new
  ELSE IF Due(m, k, s.frames)
       THEN IF /\ ~Exact(m)
               /\ m.ids # <<>> /\ s.cur > 0 /\ Used(m, s.frames + 1)
               /\ (c = -1 \/ m.ids[s.cur] = c)
            THEN old ELSE new
       ELSE old

OutOfVideo(s) == s.frames = M(s).nframes /\ Due(M(s), s.k + 1, s.frames)
MustStop(s) == /\ s.frames = M(s).nframes
               /\ \/ Strictly(M(s), s.k + 1, s.frames)
                  \/ Exact(M(s)) /\ OutOfVideo(s)

--------------------------------------------------------------------------
(* What the player does with the operations *)

Store(scr, bank, page, offs, v) ==
  [scr EXCEPT ![bank][page] = [o \in 0..255 |-> IF o \in offs THEN v ELSE @[o]]]

TickUnit(s, u, d) ==
  LET addr == u[1] * 256 + u[2]
      page == OpPage(addr)
      v == u[3]
      offs == {u[4], u[5], u[6], u[7]}
      shows == page = 32 /\ u[4] = 0   \* the byte that identifies the frame
      s1 == Advance(s, IF shows THEN v ELSE -1)
      changed == {o \in offs : s.scr[s.bank][page][o] # v}
      told == {<<x[1], x[2] + 32, x[3], x[4]>> : x \in Range(d)}
      did == {<<s.bank, page, o, v>> : o \in changed}
      idBad == M(s).ids # <<>> /\ shows /\ s1.cur > 0 /\ M(s).ids[s1.cur] # v
  IN Res([s1 EXCEPT !.pos = @ + 7,
            !.scr = IF changed = {} \/ ~M(s).track THEN @
                    ELSE Store(@, s.bank, page, changed, v)],
      When(Mx!LimitHit(s.pos, M(s).cap), <<"C02", "OpAfterLimit">>)
      \cup When(s.k >= Len(M(s).levels), <<"C06", "MoreOpsThanSamples">>)
      \cup When(s.k < Len(M(s).levels) /\ OpTick(addr) # 34 + 2 * M(s).levels[s.k + 1],
                <<"C06", "WrongDutyCycle">>)
      \cup When(MustStop(s), <<"C15", "RunsPastEndOfVideo">>)
      \cup When(idBad, <<"C15", "WrongFrameShown">>)
      \cup When(s1.cur = 0, <<"C15", "NoFrameYet">>)
      \cup When(\E o \in offs : Hole(o), <<"C11", "StoreToHole">>)
      \cup When(M(s).track /\ \E t \in told : t[1] # s.bank,
                <<"C03", "ComputedForOtherBank">>)
      \cup When(M(s).track /\ told # did, <<"C04", "ModelDiverges">>))

AckUnit(s, u) ==
  LET nb == Mx!NextBank(M(s).mode = 1, s.bank) IN
  Res([s EXCEPT !.pos = @ + 4, !.bank = nb],
      When(u[1] * 256 + u[2] # Sym.ack, <<"C01", "NoAckAtFrameEnd">>)
      \cup When(u[3] # 84 + nb, <<"C03", "WrongBankSwitch">>)
      \cup When(u[4] # 255, <<"C01", "AckFiller">>))

HeaderUnit(s, u, d) ==
  Res([s EXCEPT !.pos = 7, !.phase = "run"],
      When(\E i \in 1..6 : u[i] # 255, <<"C01", "HeaderFiller">>)
      \cup When(u[7] # M(s).mode, <<"C01", "HeaderMode">>)
      \cup When(d # <<>>, <<"C04", "ChangeBeforeStart">>))

TermUnit(s) ==
  Res([s EXCEPT !.pos = @ + 2, !.phase = "pad", !.terms = @ + 1],
      When(~(Mx!LimitHit(s.pos, M(s).cap) \/ s.k = Len(M(s).levels) \/ OutOfVideo(s)),
           <<"C02", "StopsEarly">>)
      \cup When(~Mx!LimitHit(s.pos, M(s).cap) /\ s.k # Len(M(s).levels) /\ ~OutOfVideo(s),
           <<"C06", "SamplesDropped">>)
      \cup When(~Mx!LimitHit(s.pos, M(s).cap) /\ s.k # Len(M(s).levels) /\ ~OutOfVideo(s),
           <<"C15", "EndsBeforeVideo">>))

\* Consume the bytes of one event, unit by unit.  carry: is d still unclaimed?
RECURSIVE Units(_, _, _, _)
Units(s, b, d, bad) ==
  IF b = <<>> THEN [st |-> s, bad |-> bad, d |-> d]
  ELSE IF s.phase = "start" THEN
    IF Len(b) < 7 THEN [st |-> s, bad |-> bad \cup {<<"C01", "ShortHeader">>}, d |-> d]
    ELSE LET r == HeaderUnit(s, b, d)
         IN Units(r.st, SubSeq(b, 8, Len(b)), <<>>, bad \cup r.bad)
  ELSE IF s.phase = "pad" THEN
    LET n == MinOf(Len(b), 2048 - Mx!Socket(s.pos))
        s2 == [s EXCEPT !.pos = @ + n,
                        !.phase = IF Mx!Socket(s.pos + n) = 0 THEN "end" ELSE @]
        bz == When(\E i \in 1..n : b[i] # 0, <<"C02", "PaddingNotZero">>)
    IN Units(s2, SubSeq(b, n + 1, Len(b)), d, bad \cup bz)
  ELSE IF s.phase = "end" THEN
    [st |-> s, bad |-> bad \cup {<<"C02", "BytesAfterEnd">>, <<"C01", "BytesAfterEnd">>}, d |-> d]
  ELSE IF Mx!AckDue(s.pos) THEN
    IF Len(b) < 4 THEN [st |-> s, bad |-> bad \cup {<<"C01", "NoAckAtFrameEnd">>}, d |-> d]
    ELSE LET r == AckUnit(s, b)
         IN Units(r.st, SubSeq(b, 5, Len(b)), d, bad \cup r.bad)
  ELSE IF Len(b) >= 2 /\ b[1] * 256 + b[2] = Sym.term THEN
    LET r == TermUnit(s)
    IN Units(r.st, SubSeq(b, 3, Len(b)), d, bad \cup r.bad)
  ELSE IF Len(b) >= 7 /\ b[1] * 256 + b[2] \in TickAddrs THEN
    LET r == TickUnit(s, b, d)
    IN Units(r.st, SubSeq(b, 8, Len(b)), <<>>, bad \cup r.bad)
  ELSE IF Len(b) >= 2 /\ b[1] * 256 + b[2] = Sym.ack THEN
    [st |-> s, bad |-> bad \cup {<<"C01", "AckNotAtFrameEnd">>, <<"X", "Unparsable">>}, d |-> d]
  ELSE [st |-> s, bad |-> bad \cup {<<"C01", "NotAnOperation">>, <<"X", "Unparsable">>}, d |-> d]

Step(s, e) ==
  CASE e.ev = "Sym" -> Ok(s)
    [] e.ev = "Movie" ->
         Res(Fresh(e.line),
             When(s.phase \notin {"none", "closed"}, <<"X", "MovieInMovie">>))
    [] e.ev = "Op" ->
         LET r == Units(s, e.b, e.d, {}) IN
         Res(r.st, r.bad \cup
           When(e.b = <<>>, <<"C06", "OperationNotSent">>))
    [] e.ev = "Runaway" -> Res(s, {<<"X", "NeverEnds">>})
    [] e.ev = "End" ->
         Res([s EXCEPT !.phase = "closed"],
                When(s.phase # "end", <<"C02", "NotWholeFrames">>)
                \cup When(s.phase # "end", <<"C01", "NotWholeFrames">>)
                \cup When(s.terms # 1, <<"C02", "NotOneTerminate">>))
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})

Final(s) == When(Trace[NEvents].ev # "End", <<"X", "Incomplete">>)

VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
