---------------------------- MODULE Gen_Symbols ----------------------------
(* Debug files, with the text to parse: attributes as assemblers write them. *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES lines, n
Pick(S) == {RandomElement(S)}
Dig == {"0", "1", "7", "9", "A", "C", "F"}
OtherKinds == {"version", "info", "file", "lib", "line", "mod", "scope", "seg",
               "span", "type", "csym"}
Keys == {"id", "addrsize", "scope", "def", "ref", "val", "seg", "type", "size",
         "parent", "exp"}
Words == {"absolute", "zeropage", "lab", "equ", "imp", "proc", "rw", "ro"}
Text == {"\"op_", "\"_op_", "\"main", "\"x", "\"OP_"}

RECURSIVE Val(_)
Val(k) == IF k = 0 THEN RandomElement(Dig)
          ELSE RandomElement(Dig) \o RandomElement({"", "", "+"}) \o Val(k - 1)
AnyVal(d) == CASE RandomElement(1..4) = 1 -> RandomElement(Words)
            [] RandomElement(1..3) = 1 -> "0x" \o Val(3)
            [] OTHER -> Val(RandomElement(0..5))
RECURSIVE Attrs(_, _)
Attrs(keys, k) ==
  IF k = 0 \/ keys = {} THEN <<>>
  ELSE LET x == RandomElement(keys) IN
         <<<<x, AnyVal(k)>>>> \o Attrs(keys \ {x}, k - 1)
RECURSIVE Join(_)
Join(as) == IF as = <<>> THEN ""
            ELSE as[1][1] \o "=" \o as[1][2]
                 \o (IF Len(as) = 1 THEN "" ELSE ",") \o Join(Tail(as))
Line(name, sym) ==
  LET pre == Attrs(Keys, RandomElement(0..3))
      used == {pre[i][1] : i \in 1..Len(pre)}
      post == Attrs(Keys \ used, RandomElement(0..6))
      hasname == sym \/ RandomElement(BOOLEAN)
      attrs == pre \o (IF hasname THEN <<<<"name", name>>>>
                       ELSE <<<<"count", "1">>>>) \o post IN
  [kind |-> IF sym THEN "sym" ELSE RandomElement(OtherKinds), attrs |-> attrs]
Name(k) == RandomElement(Text) \o ToString(k) \o "_" \o Val(2) \o "\""
Init == lines = <<>> /\ n \in 0..14
Add == /\ n > 0 /\ n' = n - 1
       /\ \E l \in {TLCEval(Line(Name(n), RandomElement(1..5) > 2))} :
            lines' = Append(lines, [kind |-> l.kind, attrs |-> l.attrs,
                                    text |-> l.kind \o "\t" \o Join(l.attrs)])
Emit == /\ n = 0 /\ n' = 99
        /\ PrintT(<<"BEHAVIOUR", ToJson(lines)>>) /\ UNCHANGED lines
Spec == Init /\ [][Add \/ Emit]_<<lines, n>>
===========================================================================
