----------------------------- MODULE Gen_Cache -----------------------------
(* Histories of runs, crashes and deletions. *)
EXTENDS Cache, TLC, Json
CONSTANT MaxOps
VARIABLE h
GInit == Init /\ h = <<>>
R(S) == RandomElement(S)
Pick(z) == <<R(Videos), R(Modes), R(Palettes), R(0..(9 + z - z))>>
More == Len(h) < MaxOps
GRun == More /\ \E c \in {Pick(Len(h))} :
          Run(c[1], c[2], c[3]) /\ h' = Append(h, <<"run", c[1], c[2], c[3]>>)
\* The same once more
GAgain == More /\ h # <<>> /\ h[Len(h)][1] # "del"
          /\ \E c \in {h[Len(h)]} :
               Run(c[2], c[3], c[4]) /\ h' = Append(h, <<"run", c[2], c[3], c[4]>>)
GCrash == More /\ \E c \in {Pick(Len(h))} :
            \E k \in Missing(disk, c[1], c[2], c[3]) :
            \E d \in Deaths(c[2]) :
              Crash(c[1], c[2], c[3], k, d[1], d[2])
              /\ h' = Append(h, <<"crash", c[1], c[2], c[3], k, d[1] # {}, d[2] # {}>>)
GDelete == More /\ disk # {} /\ \E f \in {R(disk)} :
             Delete(f) /\ h' = Append(h, <<"del", f[1], f[2], f[3], f[4], f[5]>>)
Finish == /\ Len(h) = MaxOps /\ what # "shown" /\ what' = "shown"
          /\ PrintT(<<"BEHAVIOUR", ToJson(h)>>) /\ UNCHANGED <<disk, conv, out, h>>
GNext == GRun \/ GAgain \/ GCrash \/ GDelete \/ Finish
GSpec == GInit /\ [][GNext]_<<cvars, h>>
=============================================================================
