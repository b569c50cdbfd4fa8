----------------------------- MODULE ClockTrace -----------------------------
(* Checks when the encoder's clock said that frames are due (Pacing).        *)
EXTENDS TraceLib
P == INSTANCE Pacing WITH Rates <- {}, Skips <- {}, Frames <- {}, Samples <- {},
       rate <- 0, skip <- 0, nframes <- 0, nsamples <- 0, k <- 0, taken <- 0,
       target <- 0, done <- 0
Start == [none |-> 0]
\* k * num against f * den, without leaving 32 bits: den = q * num + r
Due(e, f, k) == P!FrameDue(e.num, e.den % e.num, k - f * (e.den \div e.num), f)
Over(e, f, k) == P!FrameOverdue(e.num, e.den % e.num, k - f * (e.den \div e.num), f)
\* Frame f is due at sample k, and was not at the sample before.  The clock is
\* kept in floating point: a frame due exactly at a sample may be taken for due
\* just after it, unless the frame period is a whole number of samples.
By(e, f, k) == Due(e, f, k) /\ (P!ExactPeriod(e.num, e.den) \/ Over(e, f, k) \/ k = 1)
AtTime(e, f, k) ==
  /\ Due(e, f, k)
  /\ k = 1 \/ ~By(e, f, k - 1)
Clock(s, e) ==
  Res(s,
      When(\E i \in DOMAIN e.due : ~AtTime(e, e.due[i][1], e.due[i][2]),
           <<"C15", "WrongFrameShown">>)
      \cup When(~Due(e, e.frames - 1, e.samples) \/ By(e, e.frames, e.samples),
                <<"C15", "Drift">>))
Step(s, e) == CASE e.ev = "Clock" -> Clock(s, e)
                [] e.ev = "NoClock" -> Ok(s)   \* it cannot be asked: movies judge
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
=============================================================================
