----------------------------- MODULE AudioTrace -----------------------------
(* Checks what the real audio code made of sound files against Audio.tla.    *)
EXTENDS TraceLib
A == INSTANCE Audio WITH Rate <- 1, Rates <- {1}, MaxLen <- 1, FrameSize <- 1,
       MaxBlock <- 1, sr <- 0, len <- 0, given <- 0, pending <- 0, out <- 0, done <- FALSE

Start == [none |-> 0]
Counted(e) == When(e.count # A!Samples32(e.n, e.sr, e.rate), <<"C17", "Duration">>)
Duration(s, e) == Res(s, Counted(e))

\* e.amp: 1000 * 16384 / normalisation, rounded; 0: that is 0;
\* -1: not a positive finite number.  e.p: multiplier given, in units of 1/e.q; -1: none
Auto(e) == LET m == A!Amplitude200(e.hist, e.n) IN
  When(e.amp <= 0, <<"C18", "Finite">>)
  \cup When(m # 0 /\ Abs(m * 5 - e.amp * e.ch) > e.ch + m \div 20000, <<"C18", "FillsTheRange">>)
Given(e) == When(IF e.p = 0 THEN e.amp # 0 ELSE e.amp <= 0 \/ Abs(e.amp - (16384 * 1000 * e.q) \div e.p) > 1 + e.amp \div 100000,
                 <<"C18", "UsedUnchanged">>)
Normalised(e) == IF e.p < 0 THEN Auto(e) ELSE Given(e)

\* With an automatic multiplier, 16 * S / amplitude; m is 200 * ch * amplitude.
Near(v, num, den, top) ==
  LET slack == num \div 50000 + 1 IN
  v \in {Min({top, (num + d) \div den}) : d \in {-slack, 0, slack}}
AutoLevel(e, m, S, v) ==
  CASE S = 0 -> v = 0
    [] m = 0 -> v \in -15..16
    [] S > 0 -> Near(v, 3200 * S, m, 16)
    [] OTHER -> Near(-v, 3200 * (-S), m, 15)

\* Same input and output rate: sample by sample.
Exact(s, e) ==
  LET m == IF e.p < 0 THEN A!Amplitude200(e.hist, e.n) ELSE 0
      ok(i) == IF e.p < 0 THEN AutoLevel(e, m, e.sums[i], e.out[i])
               ELSE e.out[i] \in A!Levels(e.sums[i], e.ch, e.p, e.q) IN
  Res(s, Counted(e) \cup Normalised(e)
         \cup When(Len(e.out) # Len(e.sums) \/ \E i \in 1..Min({Len(e.out), Len(e.sums)}) : ~ok(i),
                   <<"C16", "Level">>)
         \cup When(m # 0 /\ \E i \in 1..Min({Len(e.out), Len(e.sums)}) :
                     Abs(e.sums[i]) * 200 >= m /\ Abs(e.out[i]) < 15, <<"C18", "FillsTheRange">>)
         \cup When(e.p < 0 /\ \E i \in 1..Min({Len(e.out), Len(e.sums)}) : e.sums[i] = 0 /\ e.out[i] # 0,
                   <<"C18", "SilenceIsNeutral">>))

\* Different rates: whole seconds of one amplitude each.  e.secs: <<S, the
\* levels seen in the middle half of that second>>
Coarse(s, e) ==
  LET m == A!Amplitude200(e.hist, e.n)
      want(S) == IF S >= 0 THEN (3200 * S) \div m ELSE -((3200 * (-S)) \div m) IN
  Res(s, Counted(e)
         \cup When(e.amp <= 0, <<"C18", "Finite">>)
         \cup When(\E k \in DOMAIN e.secs : \E v \in Range(e.secs[k][2]) :
                     IF m = 0 THEN v # 0 /\ e.secs[k][1] = 0
                     ELSE Abs(v - A!Clip(want(e.secs[k][1]))) > 2, <<"C16", "Order">>)
         \cup When(\E k \in DOMAIN e.secs : \E v \in Range(e.secs[k][2]) :
                     m # 0 /\ Abs(3200 * e.secs[k][1]) >= 15 * m + 15 * (m \div 10) /\ Abs(v) < 14,
                   <<"C18", "FillsTheRange">>))

\* Only the beginning of a long file counts: e.amp as above, e.lo..e.hi allowed
Beginning(s, e) == Res(s, When(e.amp \notin e.lo..e.hi, <<"C18", "Beginning">>))

Step(s, e) == CASE e.ev = "Duration" -> Duration(s, e)
                [] e.ev = "Exact" -> Exact(s, e)
                [] e.ev = "Coarse" -> Coarse(s, e)
                [] e.ev = "Beginning" -> Beginning(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
