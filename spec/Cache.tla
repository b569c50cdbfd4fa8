------------------------------- MODULE Cache -------------------------------
(* Converted frames on disk, beside the videos they come from.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Videos, Modes, Palettes, N    \* frames in each video
VARIABLES disk,     \* files: <<video, mode, palette, frame, part>>
          conv,     \* frames converted by the last run
          out,      \* what the last run delivered: <<video, mode, palette, frame>>
          what      \* the last thing that happened
cvars == <<disk, conv, out, what>>

Parts(m) == IF m = "DHGR" THEN {"main", "aux"} ELSE {"main"}
FilesOf(v, m, p, i) == {<<v, m, p, i, x>> : x \in Parts(m)}
MissingOf(d, v, m, p, n) == {i \in 0..(n - 1) : ~(FilesOf(v, m, p, i) \subseteq d)}
Missing(d, v, m, p) == MissingOf(d, v, m, p, N)
AfterRun(d, v, m, p, upto) == d \cup UNION {FilesOf(v, m, p, i) : i \in 0..(upto - 1)}

Init == disk = {} /\ conv = {} /\ out = <<>> /\ what = "nothing"
Run(v, m, p) ==
  /\ conv' = Missing(disk, v, m, p)
  /\ disk' = AfterRun(disk, v, m, p, N)
  /\ out' = [i \in 1..N |-> <<v, m, p, i - 1>>]
  /\ what' = "run"
\* The run dies converting frame k, with the files `part` written, `torn` begun
\* (what they held before is lost) and the others untouched.  A file that was
\* only begun is no converted frame.
Crash(v, m, p, k, part, torn) ==
  /\ k \in Missing(disk, v, m, p)
  /\ conv' = {i \in Missing(disk, v, m, p) : i <= k}
  /\ disk' = (AfterRun(disk, v, m, p, k) \cup {<<v, m, p, k, x>> : x \in part})
                \ {<<v, m, p, k, x>> : x \in torn}
  /\ out' = [i \in 1..k |-> <<v, m, p, i - 1>>]
  /\ what' = "crash"
Delete(f) == /\ f \in disk /\ disk' = disk \ {f} /\ conv' = {} /\ out' = <<>>
             /\ what' = "delete"
\* How far a conversion may get: main memory is written first.
Deaths(m) == {<<{}, {}>>, <<{}, {"main"}>>}
             \cup (IF m = "DHGR" THEN {<<{"main"}, {}>>, <<{"main"}, {"aux"}>>} ELSE {})
SomeRun == \E v \in Videos, m \in Modes, p \in Palettes : Run(v, m, p)
SomeCrash == \E v \in Videos, m \in Modes, p \in Palettes, k \in 0..(N - 1) :
               \E d \in Deaths(m) : Crash(v, m, p, k, d[1], d[2])
SomeDelete == \E f \in disk : Delete(f)
Next == SomeRun \/ SomeCrash \/ SomeDelete
Spec == Init /\ [][Next]_cvars

--------------------------------------------------------------------------
\* C28
Complete == what = "run" => \A i \in 1..N : FilesOf(out[i][1], out[i][2], out[i][3], i - 1) \subseteq disk
\* running again converts nothing and touches nothing
Again == \A v \in Videos, m \in Modes, p \in Palettes :
           (what = "run" /\ out[1] = <<v, m, p, 0>>) =>
             Missing(disk, v, m, p) = {} /\ AfterRun(disk, v, m, p, N) = disk
\* no run takes anything away from another; what a dying one spoils had to be
\* converted again anyway
Kept == [][what' # "delete" =>
             \A f \in (disk \ disk') :
               what' = "crash" /\ f[4] \in Missing(disk, f[1], f[2], f[3])
                 /\ f[4] \in conv']_cvars
Apart == [][\A f \in (disk' \ disk) :
              out' # <<>> => <<f[1], f[2], f[3]>> = <<out'[1][1], out'[1][2], out'[1][3]>>]_cvars
============================================================================
