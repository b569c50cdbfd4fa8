------------------------------ MODULE Symbols ------------------------------
(* The symbol table of an assembler debug file (cc65 format).                *)
(*                                                                           *)
(* A debug file is a sequence of lines, each a kind, a tab, and attributes   *)
(* key=value separated by commas.  Meaning(file) is what a reader must get   *)
(* from it; the reader modelled here consumes it character by character.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds, Names, Values, MaxLines

\* Strings are sequences of characters here.
Sym == <<"s", "y", "m">>
NameKey == <<"n">>
OtherKey == <<"v">>

Attr(k, v) == <<k, v>>
AttrLists ==
  {<<Attr(NameKey, n)>> : n \in Names}
  \cup {<<Attr(NameKey, n), Attr(OtherKey, v)>> : n \in Names, v \in Values}
  \cup {<<Attr(OtherKey, v), Attr(NameKey, n)>> : n \in Names, v \in Values}
Lines == {[kind |-> k, attrs |-> a] : k \in Kinds, a \in AttrLists}

AttrOf(line, key) ==
  LET i == CHOOSE j \in 1..Len(line.attrs) : line.attrs[j][1] = key
  IN  line.attrs[i][2]
AttrSet(line) == {line.attrs[i] : i \in 1..Len(line.attrs)}
SymLines(file) == {i \in 1..Len(file) : file[i].kind = Sym}
\* One record per symbol, keyed by name, with every attribute of its line.
\* (Local labels are declared many times; the last declaration counts.)
LastOfName(file, key) ==
  {i \in SymLines(file) : \A j \in SymLines(file) :
     AttrOf(file[j], key) = AttrOf(file[i], key) => j <= i}
Meaning(file, key) ==
  {<<AttrOf(file[i], key), AttrSet(file[i])>> : i \in LastOfName(file, key)}

RECURSIVE RenderAttrs(_)
RenderAttrs(as) ==
  IF as = <<>> THEN <<>>
  ELSE as[1][1] \o <<"=">> \o as[1][2]
       \o (IF Len(as) = 1 THEN <<>> ELSE <<",">>) \o RenderAttrs(Tail(as))
RECURSIVE Render(_)
Render(file) ==
  IF file = <<>> THEN <<>>
  ELSE file[1].kind \o <<"\t">> \o RenderAttrs(file[1].attrs) \o <<"\n">>
       \o Render(Tail(file))

VARIABLES file, text, i, part, kind, key, val, rec, table
svars == <<file, text, i, part, kind, key, val, rec, table>>

Init == /\ file \in UNION {[1..n -> Lines] : n \in 0..MaxLines}
        /\ text = Render(file) /\ i = 1 /\ part = "kind"
        /\ kind = <<>> /\ key = <<>> /\ val = <<>> /\ rec = {} /\ table = {}

C == text[i]
More == i <= Len(text)
Step == i' = i + 1 /\ UNCHANGED <<file, text>>

InKind == /\ More /\ part = "kind" /\ C # "\t" /\ Step
          /\ kind' = Append(kind, C)
          /\ UNCHANGED <<part, key, val, rec, table>>
EndKind == /\ More /\ part = "kind" /\ C = "\t" /\ Step
           /\ part' = "key" /\ UNCHANGED <<kind, key, val, rec, table>>
InKey == /\ More /\ part = "key" /\ C # "=" /\ Step
         /\ key' = Append(key, C) /\ UNCHANGED <<part, kind, val, rec, table>>
EndKey == /\ More /\ part = "key" /\ C = "=" /\ Step
          /\ part' = "val" /\ UNCHANGED <<kind, key, val, rec, table>>
InVal == /\ More /\ part = "val" /\ C \notin {",", "\n"} /\ Step
         /\ val' = Append(val, C) /\ UNCHANGED <<part, kind, key, rec, table>>
EndVal == /\ More /\ part = "val" /\ C = "," /\ Step
          /\ rec' = rec \cup {<<key, val>>} /\ key' = <<>> /\ val' = <<>>
          /\ part' = "key" /\ UNCHANGED <<kind, table>>
EndLine == /\ More /\ part = "val" /\ C = "\n" /\ Step
           /\ LET r == rec \cup {<<key, val>>} IN
                table' = IF kind # Sym THEN table
                         ELSE LET n == (CHOOSE a \in r : a[1] = NameKey)[2]
                              IN {x \in table : x[1] # n} \cup {<<n, r>>}
           /\ rec' = {} /\ key' = <<>> /\ val' = <<>> /\ kind' = <<>>
           /\ part' = "kind"

Next == InKind \/ EndKind \/ InKey \/ EndKey \/ InVal \/ EndVal \/ EndLine
Spec == Init /\ [][Next]_svars

\* Every entry is the complete record of some symbol line; one per name.
Prefix == /\ \A x \in table : \E n \in SymLines(file) :
               x = <<AttrOf(file[n], NameKey), AttrSet(file[n])>>
          /\ \A x, y \in table : x[1] = y[1] => x = y
Recovered == i > Len(text) => table = Meaning(file, NameKey)
===========================================================================
