------------------------------- MODULE SimTrace ------------------------------
(* Checks accesses to the simulated Apple II's I/O page: C32 against SimIO,  *)
(* C33 against Card at the W5100's real size.                                *)
EXTENDS TraceLib

IO == INSTANCE SimIO WITH Switches <- 1..12, sw <- <<>>, last <- <<>>
C == INSTANCE Card WITH Pages <- 128, PageSize <- 256, Bytes <- 0..255,
       Mode <- 0, Command <- 1025, Status <- 1027, OPEN <- 1, CONNECT <- 4,
       CLOSED <- 0, OPENED <- 19, ESTABLISHED <- 23,
       hi <- 0, lo <- 0, mem <- <<>>, from <- 0, moved <- 0, cmds <- <<>>

\* The card's registers: those the simulator keeps, those it knows but does
\* not implement, and the holes between.
Kept == (1..18) \cup {26, 27} \cup {1028, 1029} \cup (1036..1041) \cup (1062..1065)
Unimplemented == (21..25) \cup {28, 29} \cup (40..47) \cup {1026} \cup (1030..1035)
                 \cup (1042..1046) \cup (1056..1061)
Window == (0..47) \cup (1024..2047)
Holes == Window \ (Kept \cup Unimplemented \cup {0, 1024, 1025, 1027})

\* sw: on, off, or ? after a switch the simulator does not implement.
\* hi, lo: -1 when not known.  mem: the bytes of the card that are known.
New == [sw |-> [i \in 1..12 |-> "off"], hi |-> -1, lo |-> -1, mem |-> <<>>]
Start == New

Known(s, p) == p \in DOMAIN s.mem
Put(m, a, v) == (a :> v) @@ m
Forget(m, A) == [a \in DOMAIN m \ A |-> m[a]]
Lost(s) == [s EXCEPT !.hi = -1, !.lo = -1]
Moved(s) == LET p == C!Next1(C!Ptr(s.hi, s.lo)) IN
              [s EXCEPT !.hi = p \div 256, !.lo = p % 256]
Steady(s) == Known(s, 0) /\ s.mem[0] = 3

\* The mode register.
SetMode(s, v) == [s EXCEPT !.mem = Put(@, 0, v)]

\* Values a register may be asked to take.
Fair(s, p, v) ==
  CASE p = 0 -> v \in 0..3
    [] p = 1024 -> v = 33
    [] p = 1027 -> FALSE
    [] p = 1025 -> C!CanWrite(1027 :> (IF Known(s, 1027) THEN s.mem[1027] ELSE 0), p, v)
    [] OTHER -> TRUE

\* A data access.
Data(s, e) ==
  IF s.hi < 0 \/ s.lo < 0 \/ ~Steady(s) THEN Ok([Lost(s) EXCEPT !.mem = <<>>])
  ELSE LET p == C!Ptr(s.hi, s.lo) IN
  IF p \in Holes THEN
    Res(Lost(s), When(e.out # "trap", <<"C33", "HoleNotTrapped">>))
  ELSE IF p \in Unimplemented THEN
    IF e.out = "ok" THEN Ok(Moved(s))
    ELSE Res(Lost(s), When(e.out # "notimpl", <<"C33", "UnimplementedRegister">>))
  ELSE IF e.wr = 1 /\ ~Fair(s, p, e.v) THEN
    Ok([Lost(s) EXCEPT !.mem = Forget(@, {p, 1027})])
  ELSE LET t == Moved(s) IN
  IF e.wr = 1 THEN
    Res([t EXCEPT !.mem =
           LET m == Put(@, p, e.v) IN
           IF p # 1025 THEN m
           ELSE Put(m, 1027, C!After((1025 :> 0) @@ (1027 :> 0), 1025, e.v)[1027])],
        When(e.out # "ok", <<"C33", "WriteFailed">>))
  ELSE
    Res(IF Known(s, p) THEN t ELSE [t EXCEPT !.mem = Put(@, p, e.val)],
        When(e.out # "ok", <<"C33", "ReadFailed">>)
        \cup When(e.out = "ok" /\ Known(s, p) /\ e.val # s.mem[p],
                  <<"C33", "ReadBack">>))

\* A device of the I/O page.
Device(s, e) ==
  CASE e.a = IO!WAdrH ->
         Res([s EXCEPT !.hi = IF e.v < 128 THEN e.v ELSE -1],
             When(e.out # "ok", <<"C33", "AddressRefused">>))
    [] e.a = IO!WAdrL ->
         Res([s EXCEPT !.lo = e.v], When(e.out # "ok", <<"C33", "AddressRefused">>))
    [] e.a = IO!WData -> Data(s, e)
    [] e.a = IO!WMode /\ e.wr = 1 ->
         IF e.v \in 0..3
         THEN Res(SetMode(s, e.v), When(e.out # "ok", <<"C33", "ModeRefused">>))
         ELSE Ok([s EXCEPT !.mem = Forget(@, {0})])
    [] e.a = IO!WMode ->
         Res(s, When(e.out # "ok", <<"C33", "ModeRefused">>)
                \cup When(Known(s, 0) /\ e.out = "ok" /\ e.val # s.mem[0],
                          <<"C33", "ModeNotHeld">>))
    [] OTHER -> Res(s, When(e.out # "ok", <<"C32", "DeviceRefused">>))

Acc(s, e) ==
  LET m == IO!Meaning(1..12, e.a, e.wr = 1)
      i == m[2]
      whole == IO!AllSwitches[i].whole
      to == IF m[1] = "set" THEN "on" ELSE "off" IN
  CASE m[1] = "trap" ->
         Res(s, When(e.out # "trap", <<"C32", "NotTrapped">>)
                \cup When(e.out = "trap" /\ ~(49152 + e.a \in Range(e.hexes)),
                          <<"C32", "TrapDoesNotName">>))
    [] m[1] = "device" -> Device(s, e)
    [] m[1] = "status" ->
         LET was == s.sw[i]
             is == IF e.val \div 128 = 1 THEN "on" ELSE "off" IN
         Res([s EXCEPT !.sw[i] = is],
             When(e.out # "ok", <<"C32", "StatusRefused">>)
             \cup When(e.out = "ok" /\ was # "?" /\ was # is,
                       <<"C32", "WrongStatus">>))
    [] OTHER ->
         Res([s EXCEPT !.sw[i] = IF whole \/ e.out = "ok" THEN to ELSE "?"],
             When(e.out # "ok" /\ (whole \/ e.out # "notimpl"),
                  <<"C32", "SwitchRefused">>))

\* An access elsewhere in memory: no business of these.
Step(s, e) ==
  CASE e.ev = "New" -> Ok(New)
    [] e.ev = "Acc" -> Acc(s, e)
    [] e.ev = "Elsewhere" -> Ok(s)
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}

VARIABLES l, st, bad
INSTANCE TraceMain
==============================================================================
