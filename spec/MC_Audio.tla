------------------------------ MODULE MC_Audio ------------------------------
(* The audio machine for small rates, all lengths and all block sequences,   *)
(* and the level mapping over the whole 16-bit range.                        *)
EXTENDS Audio
Pairs == {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>, <<3, 2>>, <<10, 7>>}
\* every value next to a step, and the extremes
Probe == UNION {{1024 * k - 1, 1024 * k, 1024 * k + 1} : k \in -31..31}
         \cup {-32768, 32767, 0, 12345, -12345, -1, 1}
ASSUME \A S \in Probe, x \in Pairs :
  LET v == Level(S, 1, x[1], x[2]) IN
  /\ v \in MinLevel..MaxLevel
  /\ S = 0 => v = 0
  \* odd, but for the clipped extreme
  /\ (v = -15 \/ Level(-S, 1, x[1], x[2]) = IF v = 16 THEN -15 ELSE -v)
  \* mono and equal stereo channels agree
  /\ Level(2 * S, 2, x[1], x[2]) = v
  \* the step above is no lower
  /\ Level(S + 1, 1, x[1], x[2]) >= v
  /\ v \in Levels(S, 1, x[1], x[2])
\* the amplitude that fills the range is the multiplier's inverse
ASSUME \A S \in {1, 2, 100, 16383, 16384, 32767} : Level(S, 1, 16384, S) = 16
                                                 /\ Level(-S, 1, 16384, S) = -15
\* one loud frame in a thousand does not count, one in a hundred does
ASSUME Amplitude200(<<<<5, 999>>, <<30000, 1>>>>, 1000) = 1000
ASSUME Amplitude200(<<<<-20000, 10>>, <<5, 990>>>>, 1000) = 200 * 20000
ASSUME Amplitude200(<<<<0, 1>>, <<200, 1>>>>, 2) = 199 * 200
ASSUME \A n \in 0..250, hz \in {100, 300}, rate \in {100, 200, 700} :
  Samples32(n, hz, rate) = Samples(n, hz, rate)
============================================================================
