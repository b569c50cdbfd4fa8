---------------------------- MODULE RegionsTrace -----------------------------
(* Checks the simulator's memory manager, the Apple II's memory map and      *)
(* programs run in it, against Regions.                                      *)
EXTENDS TraceLib

RG == INSTANCE Regions WITH Addrs <- {}, Layouts <- {}, Values <- {}, RTS <- 96,
        layout <- <<>>, mem <- <<>>, seen <- <<>>, out <- <<>>

\* The Apple II the simulator declares.
A(n, lo, hi, rw, wint, entries) ==
  [name |-> n, lo |-> lo, hi |-> hi, rw |-> rw, rint |-> FALSE, wint |-> wint,
   entries |-> entries]
Apple == <<
  A("Zero page", 0, 255, TRUE, FALSE, {}),
  A("Stack", 256, 511, TRUE, FALSE, {}),
  A("Text page 1", 1024, 2047, TRUE, TRUE, {}),
  A("HiRes Page 1", 8192, 12287, TRUE, FALSE, {}),
  A("HiRes Page 2", 16384, 20479, FALSE, FALSE, {}),
  A("IO page", 49152, 49407, TRUE, TRUE, {}),
  A("Slot 1 ROM", 49408, 49663, FALSE, FALSE, {}),
  A("Slot 2 ROM", 49664, 49919, FALSE, FALSE, {}),
  A("Slot 3 ROM", 49920, 50175, FALSE, FALSE, {}),
  A("Slot 4 ROM", 50176, 50431, FALSE, FALSE, {}),
  A("Slot 5 ROM", 50432, 50687, FALSE, FALSE, {}),
  A("Slot 6 ROM", 50688, 50943, FALSE, FALSE, {}),
  A("Slot 7 ROM", 50944, 51199, FALSE, FALSE, {}),
  A("ROM", 53248, 65535, FALSE, FALSE, {62434, 64680, 65005, 65161})>>

Get(m, a) == IF a \in DOMAIN m THEN m[a] ELSE 0
Put(m, a, v) == (a :> v) @@ m

Start == [lay |-> <<>>, mem |-> <<>>, segs |-> 0]

ToRegion(r) == [r EXCEPT !.entries = Range(r.entries), !.rw = r.rw = 1,
                         !.rint = r.rint = 1, !.wint = r.wint = 1]
Layout(s, e) ==
  Ok([s EXCEPT !.lay = [i \in DOMAIN e.regions |-> ToRegion(e.regions[i])],
               !.mem = [a \in {x[1] : x \in Range(e.load)} |->
                          (CHOOSE x \in Range(e.load) : x[1] = a)[2]]])

\* An exception names region i and address a: the names and the addresses in
\* its message.
Names(lay, e, i, a) == lay[i].name \in Range(e.names) /\ a \in Range(e.hexes)

Write(s, e) ==
  LET no == RG!WriteRefused(s.lay, e.a)
      i == RG!RegionOf(s.lay, e.a) IN
  Res([s EXCEPT !.mem = IF no THEN @ ELSE Put(@, e.a, e.v)],
      When(no /\ e.out = "ok", <<"C31", "ReadOnlyWritten">>)
      \cup When(~no /\ e.out # "ok", <<"C31", "WriteRefusedWithoutCause">>)
      \cup When(no /\ e.out # "ok" /\ ~Names(s.lay, e, i, e.a),
                <<"C31", "RefusalDoesNotName">>)
      \* a write that is refused may have been seen before it was
      \cup When(IF RG!SeesWrite(s.lay, e.a)
                THEN e.seen # <<<<i, e.a, e.v>>>> /\ ~(no /\ e.seen = <<>>)
                ELSE e.seen # <<>>, <<"C31", "WriteInterception">>))

Read(s, e) ==
  LET i == RG!RegionOf(s.lay, e.a)
      sees == RG!SeesRead(s.lay, e.a)
      gives == IF sees THEN s.lay[i].gives ELSE -1 IN
  Res(s, When(e.out # "ok", <<"C31", "ReadRefused">>)
         \cup When(e.value # (IF gives >= 0 THEN gives ELSE Get(s.mem, e.a)),
                   <<"C31", "WrongValue">>)
         \cup When(e.seen # (IF sees THEN <<<<i, e.a>>>> ELSE <<>>),
                   <<"C31", "ReadInterception">>))

\* The opcode at old is what a fetch of it gives.  Execution that leaves a
\* region for undeclared memory other than by returning may be refused or not.
Transfer(s, e) ==
  LET i == RG!RegionOf(s.lay, e.old)
      opc == IF i # 0 /\ s.lay[i].rint /\ s.lay[i].gives >= 0
             THEN s.lay[i].gives ELSE Get(s.mem, e.old)
      open == i # 0 /\ RG!RegionOf(s.lay, e.new) = 0 /\ opc # 96
      no == IF open THEN e.out # "ok" ELSE RG!TransferRefused(s.lay, e.old, opc, e.new)
      entry == RG!IsEntry(s.lay, e.new) IN
  Res(s, When(no /\ e.out = "ok", <<"C31", "EnteredUndeclared">>)
         \cup When(~no /\ e.out # "ok", <<"C31", "TransferRefusedWithoutCause">>)
         \cup When(e.handled # (IF entry THEN <<e.new>> ELSE <<>>),
                   <<"C31", "Handlers">>))

\* Runs of addresses of the Apple II's map that behave alike: written with a
\* byte (out: ok or raised; back: whether the byte was there afterwards) ...
Ours(s, e) == s.segs = e.lo /\ e.lo <= e.hi
AppleRegion(a) == LET i == RG!RegionOf(Apple, a) IN
                    IF i = 0 THEN "" ELSE Apple[i].name
MapWrites(s, e) ==
  Res([s EXCEPT !.segs = e.hi + 1],
      When(~Ours(s, e), <<"X", "MapGap">>)
      \cup When(\E a \in e.lo..e.hi : ~(a \in 49152..49407) /\
             LET no == RG!WriteRefused(Apple, a) IN
               \/ no # (e.out # "ok") \/ no # (e.back = 0)
               \/ no /\ ~(e.named = 1 /\ AppleRegion(a) \in Range(e.names)),
           <<"C31", "AppleWrites">>)
      \cup When(\E a \in e.lo..e.hi : ~(a \in 49152..49407) /\
             RG!SeesWrite(Apple, a) # (e.seen = 1), <<"C31", "AppleInterception">>))
\* ... and entered from an instruction at old with opcode opc.
MapEntries(s, e) ==
  Res([s EXCEPT !.segs = e.hi + 1],
      When(~Ours(s, e), <<"X", "MapGap">>)
      \cup When(\E a \in e.lo..e.hi :
             (AppleRegion(a) # "" \/ AppleRegion(e.old) = "" \/ e.opc = 96) /\
             RG!TransferRefused(Apple, e.old, e.opc, a) # (e.out # "ok"),
           <<"C31", "AppleEntries">>))
MapDone(s, e) == Res([s EXCEPT !.segs = 0],
                     When(s.segs # 65536, <<"X", "MapIncomplete">>))

\* A program run in the Apple II: what it must come to.  Instructions: LDA #,
\* LDA, STA, JSR, JMP, RTS, NOP.
RECURSIVE Go(_, _, _, _, _, _)
Go(m, old, pc, a, stack, n) ==
  LET op == Get(m, pc)
      arg == Get(m, pc + 1) + 256 * Get(m, pc + 2)
      Stop(why, x, y) == [out |-> why, x |-> x, y |-> y, mem |-> m, a |-> a]
      On(m2, to, a2, st2) ==
        IF to = pc THEN Stop("end", pc, pc) ELSE Go(m2, pc, to, a2, st2, n - 1) IN
  IF n = 0 THEN Stop("long", 0, 0)
  ELSE IF RG!TransferRefused(Apple, old, Get(m, old), pc) THEN Stop("refused", old, pc)
  ELSE CASE op = 169 -> On(m, pc + 2, Get(m, pc + 1), stack)
         [] op = 173 -> On(m, pc + 3, Get(m, arg), stack)
         [] op = 234 -> On(m, pc + 1, a, stack)
         [] op = 141 -> IF RG!WriteRefused(Apple, arg) THEN Stop("denied", arg, a)
                        ELSE On(Put(m, arg, a), pc + 3, a, stack)
         [] op = 32 -> On(m, arg, a, <<pc + 3>> \o stack)
         [] op = 76 -> On(m, arg, a, stack)
         [] op = 96 /\ stack # <<>> -> On(m, Head(stack), a, Tail(stack))
         [] OTHER -> Stop("unknown", pc, op)
Run(s, e) ==
  LET m0 == [a \in {x[1] : x \in Range(e.load)} |->
               (CHOOSE x \in Range(e.load) : x[1] = a)[2]]
      w == Go(m0, e.start, e.start, 0, <<>>, 400) IN
  Res(s, When(w.out \in {"long", "unknown"}, <<"X", "BadProgram">>)
         \cup When(e.out # (IF w.out = "end" THEN "ok" ELSE "raised"),
                   <<"C31", "RunOutcome">>)
         \* the last instruction executed
         \cup When(w.out = "end" /\ (e.pc # w.x \/ e.acc # w.a), <<"C31", "RunState">>)
         \cup When(w.out = "denied" /\ ~Names(Apple, e, RG!RegionOf(Apple, w.x), w.x),
                   <<"C31", "RunRefusalDoesNotName">>)
         \cup When(w.out = "refused" /\
                   ~Names(Apple, e, RG!RegionOf(Apple, w.y), w.y),
                   <<"C31", "RunRefusalDoesNotName">>)
         \cup When(\E c \in Range(e.cells) : c[2] # Get(w.mem, c[1]),
                   <<"C31", "RunMemory">>))

Step(s, e) ==
  CASE e.ev = "Layout" -> Layout(s, e)
    [] e.ev = "Write" -> Write(s, e)
    [] e.ev = "Read" -> Read(s, e)
    [] e.ev = "Transfer" -> Transfer(s, e)
    [] e.ev = "MapWrites" -> MapWrites(s, e)
    [] e.ev = "MapEntries" -> MapEntries(s, e)
    [] e.ev = "MapDone" -> MapDone(s, e)
    [] e.ev = "Run" -> Run(s, e)
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == When(s.segs # 0, <<"X", "Incomplete">>)

VARIABLES l, st, bad
INSTANCE TraceMain
==============================================================================
