----------------------------- MODULE Gen_Frames -----------------------------
(* Schedules: C one conversion, T the encoder takes what is there, W it asks *)
(* although there is nothing yet, L it leaves.                               *)
EXTENDS Frames, TLC, Json
VARIABLES h, asked, slow
GInit == Init /\ h = <<>> /\ asked = FALSE /\ slow \in {0, 1, 2, 3}
H(x) == h' = Append(h, x)
\* What the thread can do without a new frame happens by itself.
Auto == hold # Nothing /\ Len(q) < Cap
Dice(z) == RandomElement(0..(5 + z - z))
Ready == ~Auto /\ ~(asked /\ q # <<>>)
GNext ==
  \/ Put /\ UNCHANGED <<h, asked, slow>>
  \/ ~Auto /\ asked /\ Take /\ asked' = FALSE /\ UNCHANGED <<h, slow>>
  \/ Ready /\ (Convert \/ Fail \/ Eof) /\ H("C") /\ UNCHANGED <<asked, slow>>
  \/ Ready /\ ~asked /\ q # <<>> /\ (\E d \in {Dice(Len(h))} : d >= slow) /\ Take /\ H("T")
     /\ UNCHANGED <<asked, slow>>
  \/ Ready /\ ~asked /\ q = <<>> /\ cons = "on" /\ H("W") /\ asked' = TRUE
     /\ UNCHANGED <<fvars, slow>>
  \/ Ready /\ ~asked /\ (\E d \in {RandomElement(0..(60 + Len(h) - Len(h)))} : d = 0)
     /\ Leave /\ H("L") /\ UNCHANGED <<asked, slow>>
Done == cons # "on"
GSpec == GInit /\ [][GNext]_<<fvars, h, asked, slow>>
Show == Done => PrintT(<<"BEHAVIOUR", ToJson([len |-> len, fault |-> fault, sched |-> h,
                                              out |-> Len(out), end |-> cons])>>)
=============================================================================
