------------------------------ MODULE Gen_Audio ------------------------------
(* Behaviours of the audio machine: a file and the blocks it comes in. *)
EXTENDS Audio, TLC, Json
VARIABLE h
GInit == Init /\ h = <<>>
Block(z) == {RandomElement(1..(MaxBlock + z - z))} \cup {FrameSize, MaxBlock}
GDeliver ==
  /\ given < len * FrameSize /\ pending < Second
  /\ \E x \in {RandomElement(Block(given))} :
       LET left == len * FrameSize - given
           k == IF x > left THEN left ELSE x IN
       /\ given' = given + k /\ pending' = pending + k
       /\ h' = Append(h, k)
  /\ UNCHANGED <<sr, len, out, done>>
GFinish == Finish /\ UNCHANGED h
           /\ PrintT(<<"BEHAVIOUR", ToJson([sr |-> sr, rate |-> Rate, n |-> len,
                                            frame |-> FrameSize, blocks |-> h])>>)
GNext == GDeliver \/ (Convert /\ UNCHANGED h) \/ GFinish
GSpec == GInit /\ [][GNext]_<<sr, len, given, pending, out, done, h>>
=============================================================================
