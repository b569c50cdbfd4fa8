---------------------------- MODULE DistanceTrace ---------------------------
(* Checks the code's colour costs, distances, distance tables and error      *)
(* weights against Distance, Picture, Packed and PaletteData.                *)
EXTENDS TraceLib, PaletteData

P == INSTANCE Picture WITH Rows <- {}, Dual <- FALSE, row <- 0, t <- 0, level <- 0, out <- 0
D == INSTANCE Distance WITH Runs <- {}, Costs <- {}, cost <- 0, a <- 0, b <- 0, done <- 0, paid <- 0

\* cost: palette -> matrix, as the code computed it.
Start == [n |-> 0, cost |-> [NTSC |-> <<>>, IIGS |-> <<>>], solids |-> 0, tables |-> 0]

Golden(pal) == IF pal = "NTSC" THEN NTSCDiff ELSE IIGSDiff
\* A whole number within rounding of g hundredths.  (A grey has no hue, so
\* a little rounding in its chroma moves its difference to a colour by one.)
About(c, g) == 100 * c <= g + 100 /\ 100 * c > g - 150
SameLook(pal, i, j) == Golden(pal)[i][j] < 50

\* Cost of colours i, j (values, from 0) of a mode.
CostRight(pal, i, j, c) ==
  /\ About(c, Golden(pal)[i + 1][j + 1])
  /\ (c = 0) = SameLook(pal, i + 1, j + 1)
  /\ ~SameLook(pal, i + 1, j + 1) => c > D!ExchangeCost
\* The colour, as numbered in hi-res, that value v denotes in double hi-res.
HiRes(dual, v) == IF dual THEN P!Rol(v) ELSE v

Costs(s, e) ==
  Res([s EXCEPT !.cost[e.pal] = e.cost],
      When(\E i, j \in 1..16 : e.cost[i][j] # e.cost[j][i], <<"C25", "Symmetric">>)
      \cup When(\E i, j \in 0..15 : ~CostRight(e.pal, i, j, e.cost[i + 1][j + 1]),
                <<"C25", "SubstitutionCost">>))

\* The generated table for contexts that are each one solid colour.
Solids(s, e) ==
  LET dual == e.dual = 1
      n == IF dual THEN 10 ELSE 18
      v(i) == P!Rot[(IF dual THEN P!DPhase(e.pos) ELSE P!HPhase(e.pos)) % 4][i]
      c(i, j) == e.d[i + 1][j + 1] \div n
      right == \A i, j \in 0..15 :
        CostRight(e.pal, HiRes(dual, v(i)), HiRes(dual, v(j)), c(i, j))
      asHiRes == \A i, j \in 0..15 : CostRight(e.pal, v(i), v(j), c(i, j))
      whole == \A i, j \in 0..15 : e.d[i + 1][j + 1] % n = 0
      known == whole /\ ~right /\ dual /\ asHiRes IN
  Res([s EXCEPT !.solids = @ + 1],
      When(~whole \/ ~(right \/ known), <<"C25", "TableCost">>)
      \cup (IF known /\ Prop = "C25"
            THEN IF PrintT(<<"KNOWN", s.n + 1, "DHGRCostsUseHGRCodes">>) THEN {} ELSE {}
            ELSE {}))

\* edit_distance of two runs, both ways.
Pair(s, e) ==
  LET want == D!EditDist(s.cost[e.pal], e.a, e.b) IN
  Res(s, When(e.d # want, <<"C23", "EditDistance">>)
         \cup When(e.back # want, <<"C23", "Reversed">>)
         \cup When(e.same # 0, <<"C23", "Identity">>)
         \cup When(e.d > 65535 \/ e.d < 0, <<"C23", "Fits">>))

--------------------------------------------------------------------------
\* Pixels at a byte of a page of memory.
Byte(pg, o) == IF o < 0 \/ o > 255 THEN 0 ELSE pg[o + 1]
Scanned(m, x, k) ==
  IF k < 0 \/ k > 511 THEN 0 ELSE IF k % 2 = 0 THEN x[k \div 2 + 1] ELSE m[k \div 2 + 1]
\* The byte's place in scan order.
Place(dual, aux, o) == IF dual THEN 2 * o + (IF aux THEN 0 ELSE 1) ELSE o
\* Before and after the byte.
Around(dual, m, x, k) ==
  IF dual THEN <<Scanned(m, x, k - 1), Scanned(m, x, k + 1)>>
  ELSE <<Byte(m, k - 1), Byte(m, k + 1)>>
Look(dual, ctx, v, k) == IF dual THEN P!DPixels(ctx[1], v, ctx[2], k)
                         ELSE P!HPixels(ctx[1], v, ctx[2], k)

\* A weight: distance of the pixels a byte of one screen influences from the
\* same of another.
WeightOf(cost, dual, aux, sm, sx, tm, tx, o) ==
  LET k == Place(dual, aux, o)
      s == Look(dual, Around(dual, sm, sx, k), (IF aux THEN sx ELSE sm)[o + 1], k)
      t == Look(dual, Around(dual, tm, tx, k), (IF aux THEN tx ELSE tm)[o + 1], k) IN
  D!EditDist(cost, s, t)
\* The distance that results from storing v at o, in the target's context.
StoreOf(cost, dual, aux, tm, tx, o, v) ==
  LET k == Place(dual, aux, o)
      ctx == Around(dual, tm, tx, k) IN
  D!EditDist(cost, Look(dual, ctx, v, k),
             Look(dual, ctx, (IF aux THEN tx ELSE tm)[o + 1], k))

Weights(s, e) ==
  LET dual == e.dual = 1
      aux == e.aux = 1
      cost == s.cost[e.pal]
      w(o) == WeightOf(cost, dual, aux, e.sm, e.sx, e.tm, e.tx, o) IN
  Res(s, When(\E o \in 0..255 : e.w[o + 1] # w(o), <<"C26", "Weight">>)
         \cup When(\E i \in 1..Len(e.stores) :
                LET v == e.stores[i][1] IN
                \E o \in 0..255 :
                  e.stores[i][2][o + 1] # StoreOf(cost, dual, aux, e.tm, e.tx, o, v) - e.w[o + 1],
              <<"C26", "StoreEffect">>)
         \cup When(\E i \in 1..Len(e.pairs) :
                LET o == e.pairs[i][1]
                    v == e.pairs[i][2] IN
                e.pairs[i][3] # StoreOf(cost, dual, aux, e.tm, e.tx, o, v),
              <<"C26", "PairDifference">>))

--------------------------------------------------------------------------
\* A generated, saved and reloaded table, at one position, for some contexts
\* (masked values; see PictureTrace).
HContext(v, pos) ==
  LET before == 32 * (v % 4) + 128 * ((v \div 4) % 2)
      after == (v \div 4096) + 128 * ((v \div 2048) % 2) IN
  IF pos = 0 THEN <<before, (v \div 8) % 256, after>>
  ELSE <<before, ((v \div 16) % 128) + 128 * ((v \div 8) % 2), after>>
CtxPixels(dual, v, pos) ==
  IF dual THEN P!DPixels(16 * (v % 8), (v \div 8) % 128, v \div 1024, pos)
  ELSE LET c == HContext(v, pos) IN P!HPixels(c[1], c[2], c[3], pos)
Table(s, e) ==
  LET px == [i \in 1..Len(e.ctx) |-> CtxPixels(e.dual = 1, e.ctx[i], e.pos)] IN
  Res([s EXCEPT !.tables = @ + 1],
      When(\E i, j \in 1..Len(e.ctx) :
             e.d[i][j] # D!EditDist(s.cost[e.pal], px[i], px[j]), <<"C24", "Entry">>)
      \cup When(\E i, j \in 1..Len(e.ctx) : e.d[i][j] # e.d[j][i], <<"C24", "Symmetric">>)
      \cup When(\E i \in 1..Len(e.ctx) : e.d[i][i] # 0, <<"C24", "Diagonal">>)
      \cup When(e.positions # (IF e.dual = 1 THEN 4 ELSE 2), <<"C24", "Positions">>))

Step1(s, e) ==
  CASE e.ev = "Costs" -> Costs(s, e)
    [] e.ev = "Solids" -> Solids(s, e)
    [] e.ev = "Pair" -> Pair(s, e)
    [] e.ev = "Weights" -> Weights(s, e)
    [] e.ev = "Table" -> Table(s, e)
    [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Step(s, e) == LET r == Step1(s, e) IN Res([r.st EXCEPT !.n = @ + 1], r.bad)
Final(s) == When(s.cost.NTSC = <<>> \/ s.cost.IIGS = <<>>
                 \/ (Prop = "C25" /\ s.solids # 12) \/ (Prop = "C24" /\ s.tables = 0),
                 <<"X", "Incomplete">>)

VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
