------------------------------ MODULE Gen_Cli ------------------------------
(* Command lines. *)
EXTENDS Cli, TLC, Json
VARIABLES h, done
None == {}
R(S) == RandomElement(S)
Names == {[dir |-> <<>>, stem |-> "clip", suffix |-> ".mp4"],
          [dir |-> <<"films">>, stem |-> "my.movie", suffix |-> ".avi"],
          [dir |-> <<"a.b", "c d">>, stem |-> "x", suffix |-> ".mkv"],
          [dir |-> <<"v1.0">>, stem |-> "noext", suffix |-> ""],
          [dir |-> <<>>, stem |-> "two..dots", suffix |-> ".m4v"],
          [dir |-> <<".hidden">>, stem |-> "f", suffix |-> ".MOV"],
          [dir |-> <<"day.mp4">>, stem |-> "a.mp4", suffix |-> ".mp4"],
          [dir |-> <<>>, stem |-> "film.a2m", suffix |-> ".mp4"]}
GInit == Init /\ h = <<>> /\ done = FALSE
Num(z) == R(0..(6 + z - z))
GNext ==
  \/ /\ ~done /\ Len(h) < 6
     /\ \E d \in {Num(Len(h))} : d > 0
     /\ \E t \in {R(IF Num(Len(h)) = 0 /\ Num(Len(h)) < 3 THEN Wrong ELSE Given)} :
          h' = Append(h, t)
     /\ UNCHANGED <<clvars, done>>
  \/ /\ ~done /\ (Len(h) = 6 \/ \E d \in {Num(Len(h))} : d = 0) /\ done' = TRUE /\ UNCHANGED <<clvars, h>>
     /\ \E n \in {R(Names)}, at \in {R(0..Len(h))}, eq \in {R(0..63)}, old \in {R(BOOLEAN)} :
          PrintT(<<"BEHAVIOUR", ToJson([tokens |-> h, name |-> n, at |-> at, eq |-> eq,
                                        old |-> old])>>)
GSpec == GInit /\ [][GNext]_<<clvars, h, done>>
=============================================================================
