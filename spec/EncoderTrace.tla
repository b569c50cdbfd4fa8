---------------------------- MODULE EncoderTrace ----------------------------
(* Checks the operations the code's video encoder yields, over passes,       *)
(* frames and bank switches, against Encoder, with the visible errors of     *)
(* Distance and Picture.                                                     *)
EXTENDS TraceLib

P == INSTANCE Picture WITH Rows <- {}, Dual <- FALSE, row <- 0, t <- 0, level <- 0, out <- 0
D == INSTANCE Distance WITH Runs <- {}, Costs <- {}, cost <- 0, a <- 0, b <- 0, done <- 0, paid <- 0
E == INSTANCE Encoder WITH Extras <- 3, Cells <- {}, Vals <- {}, Err <- <<>>, MaxPasses <- 0,
        target <- 0, src <- 0, dw <- 0, up <- 0, key <- 0, passes <- 0, sent <- 0, ghost <- 0, last <- 0

\* Offsets are numbered from 1 here, so that pages are tuples.
Idx == 1..256
Blank == [i \in Idx |-> 0]
BlankBank == [p \in 0..31 |-> Blank]
HoleAt == [i \in Idx |-> (i - 1) % 128 >= 120]

Start == [dual |-> FALSE, cost |-> <<>>, aux |-> FALSE, sent |-> 0, budget |-> 0,
          src |-> <<BlankBank, BlankBank>>, tgt |-> <<BlankBank, BlankBank>>,
          up |-> <<BlankBank, BlankBank>>, dw |-> BlankBank, key |-> BlankBank,
          active |-> {},
          \* visible errors of each bank when last computed; pages changed since
          err |-> <<BlankBank, BlankBank>>, stale |-> <<{}, {}>>]

At(pg, i) == IF i < 1 \/ i > 256 THEN 0 ELSE pg[i]
\* The byte's place in scan order, and its neighbours there.
Place(dual, aux, i) == IF dual THEN 2 * i - (IF aux THEN 2 ELSE 1) ELSE i - 1
Before(dual, aux, m, x, i) == IF ~dual THEN At(m, i - 1) ELSE IF aux THEN At(m, i - 1) ELSE At(x, i)
After(dual, aux, m, x, i) == IF ~dual THEN At(m, i + 1) ELSE IF aux THEN At(m, i) ELSE At(x, i + 1)
Look(dual, before, v, after, k) ==
  IF dual THEN P!DPixels(before, v, after, k) ELSE P!HPixels(before, v, after, k)

\* Visible error at offset i of page p of the bank, of screen m1/x1 for m2/x2.
ErrorAt(cost, dual, aux, m1, x1, m2, x2, i) ==
  LET k == Place(dual, aux, i)
      b1 == Before(dual, aux, m1, x1, i)  a1 == After(dual, aux, m1, x1, i)
      b2 == Before(dual, aux, m2, x2, i)  a2 == After(dual, aux, m2, x2, i)
      v1 == IF aux THEN x1[i] ELSE m1[i]
      v2 == IF aux THEN x2[i] ELSE m2[i] IN
  IF b1 = b2 /\ a1 = a2 /\ v1 = v2 THEN 0
  ELSE D!EditDist(cost, Look(dual, b1, v1, a1, k), Look(dual, b2, v2, a2, k))
\* The same, of the target with v stored at i, for the target.
StoredAt(cost, dual, aux, m, x, i, v) ==
  LET k == Place(dual, aux, i)
      b == Before(dual, aux, m, x, i)
      a == After(dual, aux, m, x, i)
      w == IF aux THEN x[i] ELSE m[i] IN
  IF v = w THEN 0 ELSE D!EditDist(cost, Look(dual, b, v, a, k), Look(dual, b, w, a, k))

ErrorPage(s, aux, p) ==
  IF s.src[1][p] = s.tgt[1][p] /\ s.src[2][p] = s.tgt[2][p] THEN Blank
  ELSE TLCEval([i \in Idx |->
         IF HoleAt[i] THEN 0
         ELSE ErrorAt(s.cost, s.dual, aux, s.src[1][p], s.src[2][p],
                      s.tgt[1][p], s.tgt[2][p], i)])

B(aux) == IF aux THEN 2 ELSE 1

Encoder(s, e) == Ok([Start EXCEPT !.dual = (e.dual = 1), !.cost = e.cost])

Target(s, e) ==
  LET ch(b) == {i \in 1..Len(e.pages) : e.pages[i][1] = b}
      bank(b) == [p \in 0..31 |->
                    LET j == {i \in ch(b) : e.pages[i][2] = p} IN
                    IF j = {} THEN s.tgt[b + 1][p] ELSE e.pages[CHOOSE i \in j : TRUE][3]]
      new == {e.pages[i][2] : i \in 1..Len(e.pages)} IN
  Ok([s EXCEPT !.tgt = <<TLCEval(bank(0)), TLCEval(bank(1))>>,
               !.stale = <<s.stale[1] \cup new, s.stale[2] \cup new>>])

\* Work on the target begins, in a bank.
Pass(s, e) ==
  LET aux == e.aux = 1
      b == B(aux)
      dw == TLCEval([p \in 0..31 |-> IF p \in s.stale[b] THEN ErrorPage(s, aux, p) ELSE s.err[b][p]])
      up == TLCEval([p \in 0..31 |->
               IF dw[p] = Blank THEN Blank ELSE TLCEval(E!Accumulated(s.up[B(aux)][p], dw[p]))]) IN
  Ok([s EXCEPT !.aux = aux, !.dw = dw, !.key = up, !.up[B(aux)] = up, !.err[b] = dw, !.stale[b] = {}, !.sent = 0,
               !.active = {p \in 0..31 : up[p] # Blank},
               !.budget = Cardinality({x \in (0..31) \X Idx : up[x[1]][x[2]] > 0})])

Op(s, e) ==
  LET b == B(s.aux)
      p == e.page - 32
      offs == [i \in 1..Len(e.offs) |-> e.offs[i] + 1]
      lead == offs[1]
      pend(q) == E!Pending(s.up[b][q])
      pending == \E q \in s.active : pend(q) # {}
      visible == p \in 0..31 /\ Len(offs) = 4 /\ \A i \in 1..Len(offs) : offs[i] \in Idx /\ ~HoleAt[offs[i]] IN
  IF ~visible \/ e.content \notin 0..255 THEN Res(s, {<<"C11", "NotVisible">>})
  ELSE LET now == s.src[b][p]
           same == \A j \in 1..4 : now[offs[j]] = e.content
           after == [s EXCEPT !.src[b][p] = IF same THEN now
                                ELSE [now EXCEPT ![offs[1]] = e.content, ![offs[2]] = e.content,
                                                 ![offs[3]] = e.content, ![offs[4]] = e.content],
                             !.stale = IF same THEN @ ELSE <<@[1] \cup {p}, @[2] \cup {p}>>,
                             !.sent = @ + 1] IN
  IF ~pending
  THEN Res(after, When(~same, <<"C11", "IdleChangesScreen">>)
                  \cup When(~same, <<"C14", "ChangesWhenDone">>))
  ELSE LET
      up == s.up[b][p]
      tm == s.tgt[1][p]  tx == s.tgt[2][p]
      dw == [s.dw[p] EXCEPT ![lead] = 0]
      cand == IF Prop # "C12" THEN {} ELSE {i \in E!Pending(up) : i # lead /\ dw[i] > 0}
      sd == TLCEval([i \in cand \cup {offs[j] : j \in 1..4} |->
                       StoredAt(s.cost, s.dual, s.aux, tm, tx, i, e.content)])
      useful == IF Prop # "C12" THEN {} ELSE TLCEval(E!Useful(up, dw, sd, lead))
      m == CHOOSE n \in 0..3 : (\A j \in (n + 2)..4 : offs[j] = lead)
                               /\ (n = 0 \/ offs[n + 1] # lead)
      xs == SubSeq(offs, 2, m + 1)
      leadBad ==
        When(e.content # s.tgt[b][p][lead], <<"C11", "LeadNotTarget">>)
        \cup When(up[lead] = 0, <<"C11", "NothingToDoThere">>)
        \cup When(up[lead] = 0, <<"C13", "NotPending">>)
        \cup When(up[lead] > 0 /\ \E q \in s.active : \E i \in pend(q) : s.key[q][i] > s.key[p][lead],
                  <<"C13", "NotMostUrgent">>)
      extraBad ==
        When(~E!Distinct(xs) \/ ~({xs[i] : i \in 1..Len(xs)} \subseteq useful), <<"C12", "NotUseful">>)
        \cup When({xs[i] : i \in 1..Len(xs)} \subseteq useful /\
                  (\A i \in 1..Len(xs) : xs[i] \in DOMAIN sd) /\
                  ~E!BestFirst(xs, useful, dw, sd), <<"C12", "NotTheBest">>)
        \cup When(~E!Enough(xs, useful), <<"C12", "SlotsUnused">>) IN
    Res([after EXCEPT !.up[b][p] = TLCEval(E!Urgencies(up, lead, xs, sd)),
                      !.key[p] = TLCEval(E!Keys(s.key[p], xs, sd)),
                      !.dw[p] = dw],
        leadBad \cup extraBad \cup When(s.sent >= s.budget, <<"C14", "DoesNotConverge">>))

\* More operations were asked for than there were differences.
Drained(s, e) ==
  Res(s, When(\E q \in s.active : E!Pending(s.up[B(s.aux)][q]) # {}, <<"C14", "StillPending">>))

\* The same target was worked on in every bank until nothing happened.
Settled(s, e) ==
  LET bad(aux) == {q \in 0..31 : ErrorPage(s, aux, q) # Blank} IN
  Res(s, When(bad(FALSE) # {} \/ (s.dual /\ bad(TRUE) # {}), <<"C14", "LooksDifferent">>))

\* Operations, each of them many times, when there was nothing left to do
Idle(s, e) ==
  LET b == B(s.aux)
      harmless(o) == /\ o[1] \in 32..63
                     /\ \A j \in 3..6 : /\ o[j] \in 0..255 /\ ~HoleAt[o[j] + 1]
                                       /\ s.src[b][o[1] - 32][o[j] + 1] = o[2] IN
  Res(s, When(\E i \in 1..Len(e.ops) : ~harmless(e.ops[i]), <<"C14", "ChangesWhenDone">>)
         \cup When(\E i \in 1..Len(e.ops) : ~harmless(e.ops[i]), <<"C11", "IdleChangesScreen">>))

Step(s, e) ==
  CASE e.ev = "Encoder" -> Encoder(s, e)
    [] e.ev = "Target" -> Target(s, e)
    [] e.ev = "Pass" -> Pass(s, e)
    [] e.ev = "Op" -> Op(s, e)
    [] e.ev = "Drained" -> Drained(s, e)
    [] e.ev = "Settled" -> Settled(s, e)
    [] e.ev = "Idle" -> Idle(s, e)
    [] e.ev = "RanDry" -> Res(s, {<<"C14", "RanDry">>})
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}

VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
