----------------------------- MODULE Gen_Server -----------------------------
(* Histories of clients, replacements of the file and restarts.  What the    *)
(* network delivers and when is the machine's own affair.                    *)
EXTENDS Server, TLC, Json
CONSTANT MaxOps
VARIABLE h
Sizes == [v \in Versions |-> IF v = First THEN 3 ELSE 4]
R(S) == RandomElement(S)
Amounts == {1, 100, 1460, 70000, 1000000, 3000000}
GInit == Init /\ h = <<>>
More == Len(h) < MaxOps
Idx == CHOOSE f \in [Clients -> 1..Cardinality(Clients)] : \A a, b \in Clients : a # b => f[a] # f[b]
Vers == CHOOSE f \in [Versions -> 1..Cardinality(Versions)] :
          f[First] = 1 /\ \A a, b \in Versions : a # b => f[a] # f[b]
\* the oldest client that has not connected yet
GConnect == More /\ \E c \in Clients :
              /\ cl[c].st = "away" /\ \A d \in Clients : Idx[d] < Idx[c] => cl[d].st # "away"
              /\ Connect(c)
              /\ h' = Append(h, <<"connect", Idx[c], R({0, 4096})>>)
GRead == More /\ \E c \in Clients : Read(c) /\ h' = Append(h, <<"read", Idx[c], R(Amounts)>>)
GIdleRead == More /\ \E c \in {c \in Clients : cl[c].st = "open" /\ cl[c].got = cl[c].sent} :
               h' = Append(h, <<"read", Idx[c], R(Amounts)>>) /\ UNCHANGED svars
GHangUp == More /\ \E c \in Clients :
             HangUp(c) /\ h' = Append(h, <<"close", Idx[c], R({"fin", "rst"})>>)
GReplace == More /\ \E v \in Versions : Replace(v) /\ h' = Append(h, <<"replace", Vers[v]>>)
GRestart == More /\ up /\ Len(h) > 1 /\ h[Len(h)][1] # "restart" /\ R(1..4) = 1
            /\ Stop /\ h' = Append(h, <<"restart", 0>>)
Silent == \/ Start \/ Accept \/ Send \/ Finish \/ \E c \in Clients : End(c)
Finished == /\ Len(h) = MaxOps /\ up
            /\ PrintT(<<"BEHAVIOUR", ToJson(h)>>)
            /\ h' = Append(h, <<"end", 0>>) /\ UNCHANGED svars
GNext == \/ GConnect \/ GRead \/ GIdleRead \/ GHangUp \/ GReplace \/ GRestart
         \/ (Silent /\ Len(h) <= MaxOps /\ UNCHANGED h) \/ Finished
GSpec == GInit /\ [][GNext]_<<svars, h>>
=============================================================================
