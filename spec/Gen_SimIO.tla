------------------------------ MODULE Gen_SimIO ------------------------------
(* Histories of accesses to the I/O page, to be replayed into the simulator. *)
(* An access is <<offset, write?, value>>; <<-1, 0, 0>> asks for the state   *)
(* of every switch.  Switches histories are about a few switches and what is *)
(* next to them; Card histories about the network card's pointer.            *)
EXTENDS SimIO, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, home, done
gvars == <<iovars, hist, home, done>>
Pick(S) == {RandomElement(S)}
Byte(x) == RandomElement({0, 1, 128, 255, RandomElement(0..255)})
W(x) == RandomElement({0, 1})

\* --- switches
Near(i) == {Setter(i), Clearer(i), Status(i)}
           \cup {a + d : a \in {Setter(i), Clearer(i), Status(i)}, d \in {-1, 1, 2, 16, 64, 128}}
Touch(a, w) == /\ Access(a, w = 1)
               /\ \E v \in {Byte(a)} : hist' = Append(hist, <<a, w, v>>)
Switching == \E i \in Pick(home), s \in Pick(BOOLEAN), w \in {W(Len(hist))} :
               LET a == IF s THEN Setter(i) ELSE Clearer(i) IN Touch(a, w)
Around == \E i \in Pick(home) : \E a \in Pick(Near(i) \cap (0..255)), w \in {W(Len(hist))} : Touch(a, w)
Anywhere == \E a \in Pick(0..255), w \in {W(Len(hist))} : Touch(a, w)
Ask == /\ hist # <<>> /\ hist[Len(hist)][1] # -1
       /\ hist' = Append(hist, <<-1, 0, 0>>) /\ UNCHANGED iovars
SwitchWork == Switching \/ Around \/ Anywhere \/ Ask

\* --- the card
\* Where to look: registers, what they drive, and the edges of the memories.
Spots == {0, 1, 15, 26, 28, 30, 46, 47, 48, 255, 256, 511, 1023, 1024, 1025, 1027, 1028,
          1036, 1040, 1041, 1046, 1060, 1062, 1064, 1065, 2047, 2048, 4095, 8191, 8192, 16383,
          16384, 16385, 24575, 24576, 28671, 28672, 32766, 32767}
Same == UNCHANGED iovars
Put(ops) == hist' = hist \o ops /\ Same
Seek(p) == IF W(p) = 0 THEN <<<<WAdrH, 1, p \div 256>>, <<WAdrL, 1, p % 256>>>>
           ELSE <<<<WAdrL, 1, p % 256>>, <<WAdrH, 1, p \div 256>>>>
RECURSIVE Datas(_, _)
Datas(n, k) == IF n = 0 THEN <<>>
               ELSE <<<<WData, IF k = 2 THEN W(n) ELSE k, Byte(n)>>>> \o Datas(n - 1, k)
Goto(x) == LET p == RandomElement(Spots \cup {RandomElement(0..32767)})
           IN (p + RandomElement(-3..2) + 32768) % 32768
Burst == \E p \in {Goto(Len(hist))}, n \in Pick(1..9), k \in Pick({0, 1, 2}) :
           Put(Seek(p) \o Datas(n, k))
\* write, go back, read
Echo == \E p \in {Goto(Len(hist))}, n \in Pick(1..7) :
          Put(Seek(p) \o Datas(n, 1) \o Seek(p) \o Datas(n, 0))
\* move only one half
HalfHi == \E p \in Pick(Spots), n \in Pick(1..3), k \in Pick({0, 1}) :
            Put(<<<<WAdrH, 1, p \div 256>>>> \o Datas(n, k))
HalfLo == \E p \in Pick(Spots), n \in Pick(1..3), k \in Pick({0, 1}) :
            Put(<<<<WAdrL, 1, p % 256>>>> \o Datas(n, k))
SetMode == \E v \in Pick(0..3) : Put(<<<<WMode, 1, v>>, <<WMode, 0, 0>>, <<WMode, 1, 3>>,
                                       <<WMode, 0, 0>>>>)
SeekRegister == Put(Seek(0) \o Datas(1, 0))
ModeByData == \E v \in Pick(0..3) : Put(Seek(0) \o <<<<WData, 1, v>>, <<WMode, 0, 0>>, <<WMode, 1, 3>>>>)
\* open a socket, perhaps connect it, with its other registers (and the rest
\* of the card's) written before and looked at afterwards
Socket == \E x \in Pick({1, 15, 1062, 1064, 2048, 16384, 24576}) :
  Put(Seek(1028) \o Datas(2, 1) \o Seek(1036) \o Datas(6, 1) \o Seek(x) \o Datas(2, 1)
      \o Seek(1024) \o <<<<WData, 1, 33>>, <<WData, 1, 1>>>> \o Seek(1027) \o Datas(1, 0)
      \o (IF W(0) = 1 THEN Seek(1025) \o <<<<WData, 1, 4>>>> \o Seek(1027) \o Datas(1, 0)
          ELSE <<>>)
      \o Seek(1028) \o Datas(2, 0) \o Seek(1036) \o Datas(6, 0) \o Seek(x) \o Datas(2, 0))
CardWork == \/ Burst \/ Echo \/ HalfHi \/ HalfLo \/ SetMode \/ SeekRegister \/ ModeByData
            \/ Socket \/ Anywhere \/ Ask

GInit == Init /\ home \in {{7, 8, 9}, {9, 10, 11, 12}, {1, 2, 3, 4, 5, 6}, {6, 7, 12}, {9, 11}}
         /\ done = FALSE /\ hist = <<>>
Emit == /\ Len(hist) >= MaxOps /\ ~done /\ done' = TRUE
        /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ UNCHANGED <<iovars, hist, home>>
SwitchSpec == GInit /\ [][(Len(hist) < MaxOps /\ SwitchWork /\ UNCHANGED <<home, done>>) \/ Emit]_gvars
CardInit == GInit
CardSpec == CardInit
            /\ [][(Len(hist) < MaxOps /\ (IF hist = <<>> THEN Put(<<<<WMode, 1, 3>>>>) ELSE CardWork)
                   /\ UNCHANGED <<home, done>>) \/ Emit]_gvars
==============================================================================
