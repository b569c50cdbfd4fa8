------------------------------- MODULE Audio -------------------------------
(* The audio half of the transcoder: a decoder that delivers the sound file  *)
(* in blocks of its own choosing, a converter that turns whole seconds into  *)
(* speaker levels as soon as they are complete, and the rest at the end.     *)
(*                                                                           *)
(* Amplitudes are channel sums S of 16-bit values over Ch channels; the mean *)
(* S / Ch, divided by 2^14 and multiplied by the normalisation, makes sixteen*)
(* steps per full swing.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

AbsOf(x) == IF x < 0 THEN -x ELSE x
Ceil(a, b) == -((-a) \div b)

--------------------------------------------------------------------------
(* Levels *)
MinLevel == -15
MaxLevel == 16
Clip(v) == IF v < MinLevel THEN MinLevel ELSE IF v > MaxLevel THEN MaxLevel ELSE v
\* num/den truncated towards zero
Trunc(num, den) == IF num < 0 THEN -((-num) \div den) ELSE num \div den
\* normalisation p/q
Num(S, p) == S * p
Den(ch, q) == 1024 * ch * q
Level(S, ch, p, q) == Clip(Trunc(Num(S, p), Den(ch, q)))
\* What floating point may make of it: a value that is exactly a whole step
\* may end up just below.  Exact: no rounding happens (powers of two).
IsPow2(x) == \E k \in 0..30 : x = 2 ^ k
Levels(S, ch, p, q) ==
  LET t == Level(S, ch, p, q) IN
  IF \/ IsPow2(q) /\ IsPow2(p) /\ IsPow2(ch)
     \/ S = 0 \/ (AbsOf(Num(S, p)) % Den(ch, q)) # 0
  THEN {t}
  ELSE {t, Clip(Trunc(Num(S, p) + (IF S > 0 THEN -1 ELSE 1), Den(ch, q)))}

--------------------------------------------------------------------------
(* Duration *)
Samples(n, sr, rate) == Ceil(n * rate, sr)
\* the same without leaving 32 bits
Samples32(n, hz, rate) == (n \div hz) * rate + Ceil((n % hz) * rate, hz)

--------------------------------------------------------------------------
(* Percentiles.  runs: <<value, count>> in ascending order of value.         *)
(* 200 times the 0.5th percentile, linearly interpolated.                    *)
RECURSIVE ValueAt(_, _)
ValueAt(runs, i) == IF i < runs[1][2] THEN runs[1][1]
                    ELSE ValueAt(Tail(runs), i - runs[1][2])
Percentile200(runs, n, r200) ==   \* at rank r200/200
  LET i == r200 \div 200
      f == r200 % 200
      a == ValueAt(runs, i)
      b == IF f = 0 THEN a ELSE ValueAt(runs, i + 1) IN
  a * (200 - f) + b * f
Low200(runs, n) == Percentile200(runs, n, n - 1)
High200(runs, n) == Percentile200(runs, n, 199 * (n - 1))
\* 200 times the amplitude that is to fill the range (for n below 10^7)
Amplitude200(runs, n) ==
  IF n = 0 THEN 0
  ELSE LET a == AbsOf(Low200(runs, n))  b == AbsOf(High200(runs, n)) IN IF a > b THEN a ELSE b

--------------------------------------------------------------------------
(* The machine *)
CONSTANTS Rate,      \* output samples per second
          Rates,     \* input frames per second: one of
          MaxLen,    \* frames in the file
          FrameSize, \* bytes in a frame
          MaxBlock   \* bytes in a block
VARIABLES sr, len,   \* the file
          given,     \* bytes delivered
          pending,   \* of these, not converted yet
          out,       \* output samples
          done
avars == <<sr, len, given, pending, out, done>>

Init == /\ sr \in Rates /\ len \in 0..MaxLen
        /\ given = 0 /\ pending = 0 /\ out = 0 /\ done = FALSE
Second == sr * FrameSize
Deliver ==
  /\ given < len * FrameSize /\ pending < Second
  /\ \E k \in 1..MaxBlock :
       /\ given + k <= len * FrameSize
       /\ given' = given + k /\ pending' = pending + k
  /\ UNCHANGED <<sr, len, out, done>>
Convert ==
  /\ pending >= Second
  /\ pending' = pending - Second /\ out' = out + Samples(sr, sr, Rate)
  /\ UNCHANGED <<sr, len, given, done>>
Finish ==
  /\ given = len * FrameSize /\ pending < Second /\ ~done
  /\ out' = out + Samples(pending \div FrameSize, sr, Rate)
  /\ pending' = 0 /\ done' = TRUE
  /\ UNCHANGED <<sr, len, given>>
Next == Deliver \/ Convert \/ Finish \/ (done /\ UNCHANGED avars)
Spec == Init /\ [][Next]_avars /\ WF_avars(Next)

\* C17
ExactDuration == done => out = Samples(len, sr, Rate)
WholeSeconds == done /\ (len % sr) = 0 => out = (len \div sr) * Rate
NeverAhead == out <= Samples(given \div FrameSize, sr, Rate)
\* never more than a second and a block behind
NotFarBehind == done \/ (pending < Second + MaxBlock /\ out = ((given - pending) \div Second) * Rate)
Ends == <>done
============================================================================
