----------------------------- MODULE PacingInd ------------------------------
(* Pacing for any frame rate below the sample rate, any frame skip and       *)
(* movies of any length.  Instead of k * num and taken * den there are two   *)
(* running sums, so that Apalache's solver stays linear:                     *)
(*   audio = k * num  (time played)    video = taken * den  (when the next   *)
(*   frame is due), both in units of 1/den of a frame period ...             *)
(*   Init => Inv;  Inv /\ Next => Inv'                                       *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  num,
  \* @type: Int;
  den,
  \* @type: Int;
  skip,
  \* @type: Int;
  nframes,
  \* @type: Int;
  nsamples,
  \* @type: Int;
  k,
  \* @type: Int;
  taken,
  \* @type: Int;
  audio,
  \* @type: Int;
  video,
  \* @type: Int;
  target,
  \* @type: Int;
  since,
  \* @type: Bool;
  done,
  \* @type: { kind: Str, audio: Int, video: Int, taken: Int };
  did

\* @type: () => <<Int, Int, Int, Int, Int>>;
movie == <<num, den, skip, nframes, nsamples>>
Movie == /\ num > 0 /\ den > num /\ skip >= 1 /\ nframes >= 1 /\ nsamples >= 0
Init == /\ num \in Int /\ den \in Int /\ skip \in Int /\ nframes \in Int
        /\ nsamples \in Int /\ Movie
        /\ k = 0 /\ taken = 0 /\ audio = 0 /\ video = 0 /\ target = 0
        /\ since = 0 /\ done = FALSE
        /\ did = [kind |-> "none", audio |-> 0, video |-> 0, taken |-> 0]

Due == audio + num >= video
Play(what) == /\ k' = k + 1 /\ audio' = audio + num
              /\ did' = [kind |-> what, audio |-> audio + num, video |-> video, taken |-> taken]
              /\ UNCHANGED movie
Plain == /\ ~done /\ k < nsamples /\ ~Due /\ Play("plain")
         /\ UNCHANGED <<taken, video, target, since, done>>
\* Every skip-th frame is used: the first, and whenever skip - 1 were not.
Used == taken = 0 \/ since = skip - 1
Take == /\ ~done /\ k < nsamples /\ Due /\ taken < nframes /\ Used
        /\ Play("take") /\ taken' = taken + 1 /\ video' = video + den
        /\ target' = taken + 1 /\ since' = 0 /\ UNCHANGED done
Skip == /\ ~done /\ k < nsamples /\ Due /\ taken < nframes /\ ~Used
        /\ Play("skip") /\ taken' = taken + 1 /\ video' = video + den
        /\ since' = since + 1 /\ UNCHANGED <<target, done>>
VideoEnds == /\ ~done /\ k < nsamples /\ Due /\ taken = nframes /\ done' = TRUE
             /\ did' = [kind |-> "over", audio |-> audio + num, video |-> video, taken |-> taken]
             /\ UNCHANGED <<movie, k, taken, audio, video, target, since>>
AudioEnds == /\ ~done /\ k = nsamples /\ done' = TRUE
             /\ did' = [kind |-> "over", audio |-> audio, video |-> video, taken |-> taken]
             /\ UNCHANGED <<movie, k, taken, audio, video, target, since>>
Next == Plain \/ Take \/ Skip \/ VideoEnds \/ AudioEnds

--------------------------------------------------------------------------
Shape == /\ Movie /\ k >= 0 /\ k <= nsamples /\ taken >= 0 /\ taken <= nframes
         /\ audio >= 0 /\ video >= 0
         /\ (k = 0 => taken = 0 /\ audio = 0)
         /\ (taken = 0 => video = 0 /\ k = 0)
         /\ (taken > 0 => video >= den /\ k > 0)
\* The video is never more than a frame ahead of the audio, nor behind it:
\* the number of frames taken is floor(audio / den) + 1 after every sample.
NoDrift == k > 0 => (video - den <= audio /\ audio < video)
\* A frame is taken at the first sample at which it is due.
OnTime == did.kind \in {"take", "skip"} =>
            /\ did.audio >= did.video
            /\ did.taken = 0 \/ did.audio - num < did.video
\* There is a target from the first sample, the newest of the used frames.
Target == taken > 0 => /\ target >= 1 /\ target + since = taken
                       /\ since >= 0 /\ since < skip
\* It ends with the audio, or when a frame is due that the video has not got.
Length == done => (k = nsamples \/ (taken = nframes /\ audio + num >= video))
Inv == Shape /\ NoDrift /\ OnTime /\ Target /\ Length
Any == /\ num \in Int /\ den \in Int /\ skip \in Int /\ nframes \in Int /\ nsamples \in Int
       /\ k \in Int /\ taken \in Int /\ audio \in Int /\ video \in Int
       /\ target \in Int /\ since \in Int /\ done \in BOOLEAN
       /\ \E w \in {"none", "plain", "take", "skip", "over"}, a, v, t \in Int :
            did = [kind |-> w, audio |-> a, video |-> v, taken |-> t]
       /\ Inv
Never == k < -1
=============================================================================
