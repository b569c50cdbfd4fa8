----------------------------- MODULE TraceMain -----------------------------
(* The behaviour of a trace specification: consume events until one is not  *)
(* explained.                                                                *)
EXTENDS TraceLib
CONSTANTS Start, Step(_, _), Final(_)
VARIABLES l, st, bad
TraceView == <<l, bad>>
TraceInit == l = 1 /\ st = Start /\ bad = {}
Consume ==
  /\ l <= NEvents /\ bad = {}
  /\ \E r \in {TLCEval(Step(st, Trace[l]))} : LET b == Mine(r.bad) IN
       /\ st' = r.st /\ bad' = b /\ l' = l + 1
       /\ (b = {} \/ PrintT(<<"REJECT", l, b>>))
Accept ==
  /\ l = NEvents + 1 /\ bad = {}
  /\ LET b == Mine(Final(st)) IN
       /\ (IF b = {} THEN PrintT(<<"ACCEPT", NEvents>>)
                     ELSE PrintT(<<"REJECT", NEvents, b>>))
       /\ bad' = b
  /\ l' = l + 1 /\ UNCHANGED st
TraceNext == Consume \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, bad>>
===========================================================================
