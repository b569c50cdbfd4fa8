------------------------------ MODULE EndToEnd ------------------------------
(* A movie, all the way: converted by the transcoder, sent by the server,    *)
(* received by the assembled player on an Apple II whose network delivers in *)
(* fits and starts and whose user pauses now and then.  The machine is that  *)
(* of PlayerCode, here in one environment, told by the driver; what is       *)
(* judged is what can be seen and heard, against the movie:                  *)
(*  - the speaker gets the soundtrack's levels, in order, every one;         *)
(*  - every store is part of putting the picture of that moment on screen;   *)
(*  - when it ends, after a still picture, that picture is on the screen;    *)
(*  - it ends by itself, and a key then leads back to ProDOS.                *)
EXTENDS PlayerCode, FiniteSetsExt

VARIABLES n,       \* steps
          scr,     \* screen memory: bank, offset -> byte
          heard,   \* samples played
          looks    \* answers given: at the card, at the keyboard
evars == <<n, scr, heard, looks>>

Audio == Cfg.audio
May == TLCEval([b \in 1..Len(Cfg.may) |->
         [o \in 1..8192 |-> {<<x[1], x[2]>> : x \in Rng(Cfg.may[b][o])}]])
LastPic == TLCEval(Max({x[1] : x \in May[1][1]}))
Hole == TLCEval([o \in 0..255 |-> o \in Rng(Cfg.hole)])

Min2(a, b) == IF a < b THEN a ELSE b
\* The pictures that can be the target at the k-th sample: frames are due at
\* rational times, and a frame period that is no whole number of samples may
\* be rounded either way.
PicOf(frame) == Min2(frame \div Cfg.every, LastPic)
Showing(k) == {PicOf((k * Cfg.num) \div Cfg.den), PicOf((k * Cfg.num - 1) \div Cfg.den)}

\* An operation puts some byte right (its other stores may merely bring others
\* closer), or changes nothing.
Stored(t, k) ==
  LET all == Rng(t.b.stores) IN
  /\ \A x \in all : /\ x[1] < Len(May)        \* the second bank only if double
                     /\ x[2] \in 8192..16383
                     /\ ~Hole[x[2] % 256]
  /\ \/ \E x \in all : \E p \in Showing(k) :
          <<p, x[3]>> \in May[x[1] + 1][x[2] - 8191]
     \/ \A x \in all : scr[x[1] + 1][x[2] - 8191] = x[3]
After(s, stores) ==
  LET f[i \in 0..Len(stores)] ==
        IF i = 0 THEN s
        ELSE [f[i - 1] EXCEPT ![stores[i][1] + 1][stores[i][2] - 8191] = stores[i][3]]
  IN f[Len(stores)]

\* The answer to the next look
Answer(t) ==
  CASE t.b.asked = "size" ->
         LET most == Min2(Room(m.b.w), Total - m.b.w.arrived)
             k == Cfg.arrive[(looks.size % Len(Cfg.arrive)) + 1] IN
         [NoAnswer EXCEPT !.n = Min2(most, k)]
    [] t.b.asked = "key" ->
         [NoAnswer EXCEPT !.key = \/ ctx.ph = "term"
                                  \/ ctx.ph \in {"slow", "go", "pause"}
                                     /\ Cfg.keys[(looks.key % Len(Cfg.keys)) + 1]]
    [] t.b.asked = "status" -> [NoAnswer EXCEPT !.st = "accept"]
    [] OTHER -> NoAnswer

\* (two of the levels are a cycle short: their pulse would need an odd
\* instruction; see C07)
IsTick == ctx.ph = "op" /\ Kind[m.s.pc] = 3
\* What can be seen and heard of a step from m to t
Shown(t, k) ==
  LET g == t.b.gaps IN
  (IF IsTick
   THEN When(k > Len(Audio) \/ Len(g) # 2 \/ (Len(g) = 2 /\ k <= Len(Audio) /\ g[2] - Audio[k] \notin {-1, 0}),
             <<"C35", "Soundtrack">>)
        \cup When(~Stored(t, k), <<"C35", "Picture">>)
   ELSE IF ctx.ph \in {"connecting", "header"} THEN {}
   ELSE When(t.b.stores # <<>>, <<"C35", "StoresBetweenSamples">>))
Ending(s, k) ==
  When(k # Len(Audio), <<"C35", "SoundtrackCut">>)
  \cup When(\E b \in 1..Len(May) : \E o \in Rng(Cfg.strict[b]) :
              s[b][o + 1] # Cfg.last[b][o + 1], <<"C35", "StillPicture">>)

PlayInit == /\ Init /\ n = 0 /\ heard = 0 /\ looks = [size |-> 0, key |-> 0]
            /\ scr = [b \in 1..2 |-> [o \in 1..8192 |-> 0]]
Play ==
  /\ ~Over
  /\ \E probe \in {TLCEval(Big(m, NoAnswer))} :
     \E a \in {Answer(probe)} :
     \E t \in {IF a = NoAnswer THEN probe ELSE TLCEval(Big(m, a))} :
     \E j \in {TLCEval(Judge(t, a, FALSE))} :
     \E k \in {heard + (IF IsTick THEN 1 ELSE 0)} :
       /\ m' = t /\ ctx' = j[1] /\ did' = a
       /\ n' = n + 1 /\ heard' = k
       /\ looks' = [size |-> looks.size + (IF t.b.asked = "size" THEN 1 ELSE 0),
                    key |-> looks.key + (IF t.b.asked = "key" THEN 1 ELSE 0)]
       /\ \E c \in {TLCEval(j[2] \cup Shown(t, k))} :
            LET s == IF IsTick /\ c = {} THEN After(scr, t.b.stores) ELSE scr IN
            /\ scr' = s
            /\ bad' = c \cup (IF j[1].ph = "term" /\ ctx.ph # "term" THEN Ending(s, k) ELSE {})
                     \cup When(j[1].ph = "error", <<"C35", "Connects">>)
                     \cup When(n > Len(Audio) + 6 * (Len(Stream) + 4096), <<"C35", "Ends">>)
       /\ (j[1].ph = ctx.ph \/ j[1].ph \in {"op", "slow", "go"}
           \/ PrintT(<<"REACHED", j[1].ph>>))
PlaySpec == PlayInit /\ [][Play]_<<cvars, evars>>

\* One environment, so the number of steps taken says it all.
Where == <<n, bad>>
Told == [phase |-> ctx.ph, at |-> ctx.at, heard |-> heard,
         arrived |-> m.b.w.arrived, freed |-> m.b.w.freed, bad |-> bad,
         gaps |-> m.b.gaps, stores |-> m.b.stores]
===========================================================================
