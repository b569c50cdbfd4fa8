------------------------------ MODULE Distance ------------------------------
(* Visual distance between two runs of pixels: the cheapest way to cover     *)
(* them, left to right, with substitutions of one pixel (at a cost given for *)
(* the pair of colours) and exchanges of two adjacent pixels (at cost 1).    *)
(* Runs are sequences of colour values; Cost is a matrix indexed from 1.     *)
EXTENDS Integers, Sequences

ExchangeCost == 1
CanExchange(a, b, k) == k > 1 /\ a[k] = b[k - 1] /\ a[k - 1] = b[k]

\* p1, p2: distances of the prefixes one and two pixels shorter.
RECURSIVE EditFrom(_, _, _, _, _, _)
EditFrom(Cost, a, b, k, p2, p1) ==
  IF k > Len(a) THEN p1
  ELSE LET sub == p1 + (IF a[k] = b[k] THEN 0 ELSE Cost[a[k] + 1][b[k] + 1])
           exch == p2 + ExchangeCost IN
       EditFrom(Cost, a, b, k + 1, p1,
                IF CanExchange(a, b, k) /\ exch < sub THEN exch ELSE sub)
EditDist(Cost, a, b) == EditFrom(Cost, a, b, 1, 0, 0)

RECURSIVE Pixelwise(_, _, _, _)
Pixelwise(Cost, a, b, k) ==
  IF k > Len(a) THEN 0 ELSE Cost[a[k] + 1][b[k] + 1] + Pixelwise(Cost, a, b, k + 1)

--------------------------------------------------------------------------
(* The covering process *)
CONSTANTS Runs, Costs
VARIABLES cost, a, b, done, paid      \* done: pixels covered
dvars == <<cost, a, b, done, paid>>
DInit == cost \in Costs /\ a \in Runs /\ b \in {r \in Runs : Len(r) = Len(a)} /\ done = 0 /\ paid = 0
Substitute == /\ done < Len(a)
              /\ done' = done + 1
              /\ paid' = paid + cost[a[done + 1] + 1][b[done + 1] + 1]
              /\ UNCHANGED <<cost, a, b>>
Exchange == /\ done + 2 <= Len(a) /\ CanExchange(a, b, done + 2)
            /\ done' = done + 2
            /\ paid' = paid + ExchangeCost
            /\ UNCHANGED <<cost, a, b>>
DSpec == DInit /\ [][Substitute \/ Exchange]_dvars

\* No covering is cheaper than the distance ...
NoCheaper == done = Len(a) => EditDist(cost, a, b) <= paid
\* ... and every prefix of the optimum can be extended to it.
RECURSIVE Best(_, _, _, _)
Best(c, x, y, k) ==
  IF k >= Len(x) THEN 0
  ELSE LET s == c[x[k + 1] + 1][y[k + 1] + 1] + Best(c, x, y, k + 1) IN
       IF k + 2 <= Len(x) /\ CanExchange(x, y, k + 2)
       THEN LET e == ExchangeCost + Best(c, x, y, k + 2) IN IF e < s THEN e ELSE s
       ELSE s
Attained == done = 0 => EditDist(cost, a, b) = Best(cost, a, b, 0)
Metric ==
  done = 0 =>
    /\ EditDist(cost, a, a) = 0
    /\ EditDist(cost, a, b) = EditDist(cost, b, a)
    /\ EditDist(cost, a, b) <= Pixelwise(cost, a, b, 1)
===========================================================================
