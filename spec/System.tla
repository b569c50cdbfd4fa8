------------------------------- MODULE System -------------------------------
(* From a movie to the screen and the speaker: pacing, encoder, transport,   *)
(* file, network and player, each as its own module describes it, composed.  *)
(* First the movie is converted (samples, pictures, operations, frames), then*)
(* the file is played under some delivery and pausing.  What this model      *)
(* guarantees is C35; EndToEnd.tla checks it of the real programs.           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Frame, OpLen, AckLen, TermLen,      \* as in Mux
          Buf,                                \* the card's buffer
          Samples,                            \* lengths of soundtrack
          Cells,                              \* bytes of a bank
          Chunks,                             \* how much the network delivers
          Duals                               \* modes considered

VARIABLES
  dual, pics, switch,     \* the movie: two pictures, the sample of the second
  total,                  \* samples
  \* the transcoder
  file,                   \* operations, in order
  size,                   \* their bytes
  k,                      \* samples encoded
  tbank,                  \* bank it stores to
  belief,                 \* what it takes the screen to be
  phase,                  \* "encode", "play", "done"
  \* network and player
  arrived, freed, at,     \* bytes arrived, given back; operations executed
  pos,                    \* bytes executed
  ph, pbank, screen, speaker, key
movie == <<dual, pics, switch, total>>
coder == <<file, size, k, tbank, belief>>
net == <<arrived, freed>>
player == <<at, pos, ph, pbank, screen, speaker, key>>
vars == <<movie, coder, phase, net, player>>

M == INSTANCE Mux WITH Limits <- {0}, Supplies <- Samples, limit <- 0, supply <- total,
                       pos <- size, bank <- tbank, used <- k, log <- file

Banks == IF dual THEN {0, 1} ELSE {0}
Blank(d) == [b \in (IF d THEN {0, 1} ELSE {0}) |-> [c \in Cells |-> 0]]
Pictures(d) == [(IF d THEN {0, 1} ELSE {0}) -> [Cells -> {0, 1}]]

Init ==
  /\ dual \in Duals
  /\ pics \in Pictures(dual) \X Pictures(dual)
  /\ total \in Samples /\ switch \in 2..(total + 1)
  /\ file = <<[kind |-> "header", len |-> OpLen]>> /\ size = OpLen
  /\ k = 0 /\ tbank = 0 /\ belief = Blank(dual) /\ phase = "encode"
  /\ arrived = 0 /\ freed = 0 /\ at = 0 /\ pos = 0
  /\ ph = "header" /\ pbank = 0 /\ screen = Blank(dual) /\ speaker = <<>> /\ key = FALSE

--------------------------------------------------------------------------
(* The transcoder *)
Put(e) == file' = Append(file, e) /\ size' = size + e.len
Target(j) == IF j < switch THEN pics[1] ELSE pics[2]     \* at sample j
Wrong(j) == {c \in Cells : belief[tbank][c] # Target(j)[tbank][c]}

\* The operation of sample k + 1: some byte of the picture that is not there
\* yet, wherever else it is missing as well; or, if none is, no change.
Sample ==
  /\ phase = "encode" /\ ~M!AckDue(size) /\ k < total
  /\ LET w == Wrong(k + 1) IN
       IF w = {}
       THEN /\ Put([kind |-> "tick", len |-> OpLen, level |-> k + 1, val |-> belief[tbank][1],
                    cells |-> {1}])
            /\ UNCHANGED belief
       ELSE \E c \in w :
              LET v == Target(k + 1)[tbank][c]
                  also == {x \in w : Target(k + 1)[tbank][x] = v} IN
                \E more \in SUBSET (also \ {c}) :
                  LET s == {c} \cup more IN
                    /\ Put([kind |-> "tick", len |-> OpLen, level |-> k + 1, val |-> v,
                            cells |-> s])
                    /\ belief' = [belief EXCEPT ![tbank] =
                                    [x \in Cells |-> IF x \in s THEN v ELSE @[x]]]
  /\ k' = k + 1
  /\ UNCHANGED <<movie, tbank, phase, net, player>>

Ack ==
  /\ phase = "encode" /\ M!AckDue(size)
  /\ tbank' = M!NextBank(dual, tbank)
  /\ Put([kind |-> "ack", len |-> AckLen, bank |-> tbank'])
  /\ UNCHANGED <<movie, k, belief, phase, net, player>>

Finish ==
  /\ phase = "encode" /\ ~M!AckDue(size) /\ k = total
  /\ file' = file \o <<[kind |-> "term", len |-> TermLen],
                       [kind |-> "zero", len |-> M!PadTo(size + TermLen) - (size + TermLen)]>>
  /\ size' = M!PadTo(size + TermLen)
  /\ phase' = "play"
  /\ UNCHANGED <<movie, k, tbank, belief, net, player>>

--------------------------------------------------------------------------
(* The network: what the server sends arrives in order, as there is room *)
Deliver ==
  /\ phase = "play"
  /\ \E n \in Chunks :
       /\ arrived' = (IF arrived + n > size THEN size ELSE arrived + n)
       /\ arrived' > arrived /\ arrived' - freed <= Buf
  /\ UNCHANGED <<movie, coder, phase, freed, player>>
Press == /\ phase = "play" /\ ~key /\ key' = TRUE
         /\ UNCHANGED <<movie, coder, phase, net, at, pos, ph, pbank, screen, speaker>>

(* The player *)
Cur == file[at + 1]
Start == /\ phase = "play" /\ ph = "header" /\ arrived >= OpLen
         /\ at' = 1 /\ pos' = OpLen /\ ph' = "check"
         /\ UNCHANGED <<movie, coder, phase, net, pbank, screen, speaker, key>>
Check == /\ phase = "play" /\ ph = "check" /\ arrived - freed >= Frame
         /\ ph' = (IF key THEN "paused" ELSE "op") /\ key' = FALSE
         /\ UNCHANGED <<movie, coder, phase, net, at, pos, pbank, screen, speaker>>
Resume == /\ ph = "paused" /\ key /\ ph' = "op" /\ key' = FALSE
          /\ UNCHANGED <<movie, coder, phase, net, at, pos, pbank, screen, speaker>>
Did == at' = at + 1 /\ pos' = pos + Cur.len
Execute ==
  /\ ph = "op" /\ Cur.kind = "tick"
  /\ Did /\ speaker' = Append(speaker, Cur.level)
  /\ screen' = [screen EXCEPT ![pbank] = [c \in Cells |-> IF c \in Cur.cells THEN Cur.val ELSE @[c]]]
  /\ UNCHANGED <<movie, coder, phase, net, ph, pbank, key>>
Acknowledge ==
  /\ ph = "op" /\ Cur.kind = "ack"
  /\ Did /\ pbank' = Cur.bank /\ freed' = freed + Frame /\ ph' = "check"
  /\ UNCHANGED <<movie, coder, phase, arrived, screen, speaker, key>>
Over == /\ ph = "op" /\ Cur.kind = "term"
        /\ Did /\ ph' = "ended" /\ key' = FALSE
        /\ UNCHANGED <<movie, coder, phase, net, pbank, screen, speaker>>
Quit == /\ ph = "ended" /\ key /\ ph' = "quit" /\ phase' = "done"
        /\ UNCHANGED <<movie, coder, net, at, pos, pbank, screen, speaker, key>>

Convert == Sample \/ Ack \/ Finish
Play == Start \/ Check \/ Resume \/ Execute \/ Acknowledge \/ Over \/ Quit
Next == Convert \/ Deliver \/ Press \/ Play
Spec == Init /\ [][Next]_vars /\ WF_vars(Convert) /\ WF_vars(Deliver)
        /\ WF_vars(Press) /\ WF_vars(Play)

--------------------------------------------------------------------------
(* C35 *)
\* The soundtrack, in order, one level per operation; all of it in the end.
Heard == /\ speaker = [i \in 1..Len(speaker) |-> i]
         /\ Len(speaker) <= total
         /\ ph \in {"ended", "quit"} => Len(speaker) = total
\* What the transcoder believed when it emitted an operation is what the
\* screen is when the player has executed it, whatever the mode.
\* (In the end, and by Execute's determinism all along.)
Believed == ph \in {"ended", "quit"} => screen = belief
\* An operation that changes the screen makes it more like the picture that
\* was being shown when its sample was encoded, in every byte it changes.
Better == [][\A b \in Banks : \A c \in Cells :
               screen'[b][c] # screen[b][c] =>
                 screen'[b][c] = Target(speaker'[Len(speaker')])[b][c]]_vars
\* Long enough on screen, the last picture is there.  A frame's worth of
\* operations of each bank suffices when a frame has as many as a bank bytes.
PerFrame == (Frame - AckLen) \div OpLen
LongEnough == total + 1 - switch >= (IF dual THEN 3 ELSE 1) * PerFrame
Still == (ph \in {"ended", "quit"} /\ LongEnough) => screen = pics[2]
\* The player never runs ahead of the network, never reads into a frame that
\* is not there, and holds at most the card's buffer.
Flow == /\ pos <= arrived /\ arrived - freed <= Buf
        /\ ph = "op" => arrived - freed >= Frame /\ pos < freed + Frame
\* The player is never at padding: there is an end before it.
Framed == ph = "op" => Cur.kind \in {"tick", "ack", "term"}
Quits == <>(phase = "done")
============================================================================
