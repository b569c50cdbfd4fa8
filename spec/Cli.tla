-------------------------------- MODULE Cli --------------------------------
(* The transcoder's command line.  Options are read one after the other;     *)
(* each sets one part of the configuration; what nobody sets has its default;*)
(* an unknown mode or palette refuses the whole command line.                *)
EXTENDS Integers, Sequences, FiniteSets

Fields == {"output", "max", "norm", "rate", "skip", "mode", "palette"}
OptOf == [output |-> "--output", max |-> "--max_output_mb",
          norm |-> "--audio_normalization", rate |-> "--audio_bitrate",
          skip |-> "--every_n_video_frames", mode |-> "--video_mode",
          palette |-> "--palette"]
\* The documented defaults.  Limits are in bytes, 0: none; normalisation in
\* thousandths, -1: automatic.
Default == [output |-> "", max |-> 0, norm |-> -1, rate |-> 14700, skip |-> 2,
            mode |-> "DHGR", palette |-> "NTSC"]
\* What can be given: <<field, text, value>>
Limit(text, bytes) == <<"max", text, bytes>>
Given ==
  {<<"output", t, t>> : t \in {"out.a2m", "other/movie.bin", "plain", "a.b.c"}}
  \cup {Limit("0", 0), Limit("1", 1048576), Limit("0.5", 524288),
        Limit("0.002", 2097), Limit("0.0021", 2202), Limit("2.25", 2359296)}
  \cup {<<"norm", "0", 0>>, <<"norm", "1", 1000>>, <<"norm", "0.5", 500>>, <<"norm", "12.25", 12250>>}
  \cup {<<"rate", "14700", 14700>>, <<"rate", "22500", 22500>>, <<"rate", "14340", 14340>>}
  \cup {<<"skip", "1", 1>>, <<"skip", "2", 2>>, <<"skip", "3", 3>>, <<"skip", "10", 10>>}
  \cup {<<"mode", m, m>> : m \in {"HGR", "DHGR"}}
  \cup {<<"palette", p, p>> : p \in {"NTSC", "IIGS"}}
Wrong == {<<"mode", "hgr", "">>, <<"mode", "LORES", "">>, <<"mode", "DHGR_MONO", "">>,
          <<"palette", "ntsc", "">>, <<"palette", "RGB", "">>, <<"palette", "5", "">>,
          <<"palette", "UNKNOWN", "">>}
IsWrong(t) == IF t[1] \in {"mode", "palette"} THEN t[3] = "" ELSE FALSE

RECURSIVE Effective(_)
Effective(ts) == IF ts = <<>> THEN Default
                 ELSE LET t == ts[Len(ts)]
                          c == Effective(SubSeq(ts, 1, Len(ts) - 1)) IN
                      [c EXCEPT ![t[1]] = t[3]]
Refused(ts) == \E i \in 1..Len(ts) : IsWrong(ts[i])
\* name: [dir |-> components, stem, suffix]; empty dir: where the program runs
OutputPath(ts, name) ==
  LET o == Effective(ts).output IN
  IF o # "" THEN o
  ELSE LET d[i \in 0..Len(name.dir)] == IF i = 0 THEN "" ELSE d[i - 1] \o name.dir[i] \o "/" IN
       d[Len(name.dir)] \o name.stem \o ".a2m"

--------------------------------------------------------------------------
CONSTANTS Tokens, MaxTokens
VARIABLES todo, cfg, refused, seen
clvars == <<todo, cfg, refused, seen>>
Init == /\ todo \in UNION {[1..n -> Tokens] : n \in 0..MaxTokens}
        /\ cfg = Default /\ refused = FALSE /\ seen = <<>>
Consume == /\ todo # <<>> /\ ~refused
           /\ LET t == Head(todo) IN
                IF IsWrong(t) THEN refused' = TRUE /\ UNCHANGED cfg
                ELSE cfg' = [cfg EXCEPT ![t[1]] = t[3]] /\ UNCHANGED refused
           /\ seen' = Append(seen, Head(todo)) /\ todo' = Tail(todo)
Next == Consume \/ ((todo = <<>> \/ refused) /\ UNCHANGED clvars)
Spec == Init /\ [][Next]_clvars
\* C29
IsEffective == ~refused => cfg = Effective(seen)
IsRefused == refused = Refused(seen)
Defaults == ~refused => \A f \in Fields :
              (~\E i \in 1..Len(seen) : seen[i][1] = f) => cfg[f] = Default[f]
LastWins == ~refused => \A i \in 1..Len(seen) :
              (\A j \in (i + 1)..Len(seen) : seen[j][1] # seen[i][1])
                => cfg[seen[i][1]] = seen[i][3]
============================================================================
