------------------------------- MODULE Pacing -------------------------------
(* When video frames become the encoding target.                            *)
(*                                                                          *)
(* Audio samples are the clock.  Frame f (from 0) of a movie of num frames   *)
(* per den samples is due at sample k (from 1) when k/den >= f/num.  Each    *)
(* sample takes at most one new frame; only every skip-th frame taken is     *)
(* encoded; the movie ends when a frame is due and there is none.            *)
EXTENDS Naturals, Sequences

FrameDue(num, den, k, f) == k * num >= f * den
\* Strictly later than the instant the frame is due.
FrameOverdue(num, den, k, f) == k * num > f * den
\* The frame period is a whole number of samples: nothing to round.
ExactPeriod(num, den) == den % num = 0
\* Is the f-th frame taken (from 1) encoded?
FrameUsed(skip, f) == (f - 1) % skip = 0

CONSTANTS Rates,      \* <<num, den>> pairs to consider
          Skips, Frames, Samples
VARIABLES rate, skip, nframes, nsamples, k, taken, target, done
vars == <<rate, skip, nframes, nsamples, k, taken, target, done>>

Init == /\ rate \in Rates /\ skip \in Skips
        /\ nframes \in Frames /\ nsamples \in Samples
        /\ k = 0 /\ taken = 0 /\ target = 0 /\ done = FALSE

Due == FrameDue(rate[1], rate[2], k + 1, taken)

\* A sample during which the target does not change.
Plain == /\ ~done /\ k < nsamples /\ ~Due
         /\ k' = k + 1 /\ UNCHANGED <<rate, skip, nframes, nsamples, taken, target, done>>
\* A sample that takes the next frame; the frame is encoded, or skipped.
Take == /\ ~done /\ k < nsamples /\ Due /\ taken < nframes
        /\ FrameUsed(skip, taken + 1)
        /\ k' = k + 1 /\ taken' = taken + 1 /\ target' = taken + 1
        /\ UNCHANGED <<rate, skip, nframes, nsamples, done>>
Skip == /\ ~done /\ k < nsamples /\ Due /\ taken < nframes
        /\ ~FrameUsed(skip, taken + 1)
        /\ k' = k + 1 /\ taken' = taken + 1
        /\ UNCHANGED <<rate, skip, nframes, nsamples, target, done>>
\* A frame is due but the video has run out: the sample is not played.
VideoEnds == /\ ~done /\ k < nsamples /\ Due /\ taken = nframes
             /\ done' = TRUE
             /\ UNCHANGED <<rate, skip, nframes, nsamples, k, taken, target>>
AudioEnds == /\ ~done /\ k = nsamples /\ done' = TRUE
             /\ UNCHANGED <<rate, skip, nframes, nsamples, k, taken, target>>
Next == Plain \/ Take \/ Skip \/ VideoEnds \/ AudioEnds
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
MinN(a, b) == IF a < b THEN a ELSE b
MaxOf1(x) == IF x < 1 THEN 1 ELSE x
CeilD(a, b) == (a + b - 1) \div b

TypeOK == k \in 0..nsamples /\ taken \in 0..nframes /\ target \in 0..taken

\* Closed form: video never drifts from audio, however long the movie.
NoDrift ==
  taken = MinN(MinN(k, (k * rate[1]) \div rate[2] + 1), nframes)
    * (IF k = 0 THEN 0 ELSE 1)
\* The same, per frame: frame f is taken at its sample, not before or after.
OnTime ==
  rate[1] < rate[2] =>
    \A f \in 0..nframes-1 :
      (f < taken) <=> (k >= MaxOf1(CeilD(f * rate[2], rate[1])))
\* From the first sample on there is a target, and it is the newest used one.
Target ==
  k > 0 /\ nframes > 0 =>
    /\ FrameUsed(skip, target)
    /\ \A f \in target+1..taken : ~FrameUsed(skip, f)
\* The movie is as long as the shorter of audio and video.
Length ==
  done => \/ k = nsamples
          \/ taken = nframes /\ (k + 1) * rate[1] >= nframes * rate[2]
Ends == <>done
===========================================================================
