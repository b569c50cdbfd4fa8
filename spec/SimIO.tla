-------------------------------- MODULE SimIO --------------------------------
(* The simulated Apple II's I/O page: soft switches, a speaker, and the four *)
(* registers of the network card (simulator/machine.py, apple2.py).          *)
(* Addresses are offsets in the page.                                        *)
EXTENDS Integers, Sequences, FiniteSets

\* clear, set, status; rd: reads of clear and set work too; whole: the
\* simulator implements what the switch does.
SW(n, c, s, st, rd, whole) ==
  [name |-> n, clear |-> c, set |-> s, status |-> st, rd |-> rd, whole |-> whole]
AllSwitches == <<
  SW("80Store", 0, 1, 24, FALSE, FALSE),   SW("RamRd", 2, 3, 19, FALSE, FALSE),
  SW("RamWrt", 4, 5, 20, FALSE, FALSE),    SW("IntCxROM", 6, 7, 21, FALSE, FALSE),
  SW("AltZP", 8, 9, 22, FALSE, FALSE),     SW("SlotC3ROM", 10, 11, 23, FALSE, FALSE),
  SW("80Col", 12, 13, 31, FALSE, TRUE),    SW("AltCharSet", 14, 15, 30, FALSE, TRUE),
  SW("Text", 80, 81, 26, TRUE, TRUE),      SW("Mixed", 82, 83, 27, TRUE, TRUE),
  SW("Page2", 84, 85, 28, TRUE, TRUE),     SW("Hires", 86, 87, 29, TRUE, TRUE)>>

Speaker == 48
WMode == 148  WAdrH == 149  WAdrL == 150  WData == 151

CONSTANTS Switches      \* indices in AllSwitches

VARIABLES sw, last
iovars == <<sw, last>>

Setter(i) == AllSwitches[i].set
Clearer(i) == AllSwitches[i].clear
Status(i) == AllSwitches[i].status

\* What an access does: <<"set"|"clear"|"status", i>>, <<"device">>, or
\* <<"trap">>.
Meaning(S, a, wr) ==
  IF \E i \in S : a = Setter(i) /\ (wr \/ AllSwitches[i].rd)
  THEN <<"set", CHOOSE i \in S : a = Setter(i)>>
  ELSE IF \E i \in S : a = Clearer(i) /\ (wr \/ AllSwitches[i].rd)
  THEN <<"clear", CHOOSE i \in S : a = Clearer(i)>>
  ELSE IF ~wr /\ \E i \in S : a = Status(i)
  THEN <<"status", CHOOSE i \in S : a = Status(i)>>
  ELSE IF a \in {Speaker, WMode, WData} \/ (wr /\ a \in {WAdrH, WAdrL})
  THEN <<"device">>
  ELSE <<"trap">>

Init == sw = [i \in Switches |-> FALSE] /\ last = [i \in Switches |-> <<>>]

\* One access.  A switch whose effect is not implemented reports that, and may
\* have changed or not.
Access(a, wr) ==
  LET m == Meaning(Switches, a, wr) IN
  \/ /\ m[1] \in {"set", "clear"}
     /\ sw' = [sw EXCEPT ![m[2]] = m[1] = "set"]
     /\ last' = [last EXCEPT ![m[2]] = <<a, wr>>]
  \/ /\ (m[1] \in {"status", "device", "trap"}
         \/ (m[1] \in {"set", "clear"} /\ ~AllSwitches[m[2]].whole))
     /\ UNCHANGED iovars
Set == \E i \in Switches, wr \in BOOLEAN :
         Meaning(Switches, Setter(i), wr)[1] = "set" /\ Access(Setter(i), wr)
Clear == \E i \in Switches, wr \in BOOLEAN :
         Meaning(Switches, Clearer(i), wr)[1] = "clear" /\ Access(Clearer(i), wr)
Other == \E a \in 0..255, wr \in BOOLEAN :
         ~(Meaning(Switches, a, wr)[1] \in {"set", "clear"}) /\ Access(a, wr)
Next == Set \/ Clear \/ Other
Spec == Init /\ [][Next]_iovars

\* --- what follows ---------------------------------------------------------
\* A switch is what its last effective access made it, and that was to one of
\* its own addresses by a kind of access it declares.
Remembers ==
  \A i \in Switches :
    IF last[i] = <<>> THEN ~sw[i]
    ELSE /\ last[i][1] = (IF sw[i] THEN Setter(i) ELSE Clearer(i))
         /\ last[i][2] \/ AllSwitches[i].rd
\* One access moves one switch.
OneAtATime == [][Cardinality({i \in Switches : sw'[i] # sw[i]}) <= 1]_iovars
\* No two switches, nor a switch and a device, share an address; so every
\* address means one thing to reads and one to writes.
Addresses(i) == {Setter(i), Clearer(i), Status(i)}
Disjoint ==
  LET I == DOMAIN AllSwitches IN
  /\ \A i, j \in I : i # j => Addresses(i) \cap Addresses(j) = {}
  /\ \A i \in I : /\ Cardinality(Addresses(i)) = 3
                  /\ Addresses(i) \cap {Speaker, WMode, WAdrH, WAdrL, WData} = {}
ASSUME Disjoint
==============================================================================
