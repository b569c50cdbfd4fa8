----------------------------- MODULE CacheTrace -----------------------------
(* Checks what real runs did to the files beside real videos.                *)
EXTENDS TraceLib
K == INSTANCE Cache WITH Videos <- {}, Modes <- {}, Palettes <- {}, N <- 0,
          disk <- 0, conv <- 0, out <- 0, what <- 0
Byte(c, i, bank, pos) ==
  (i * 3 + i \div 64 + bank * 101 + pos * 17 + (IF c[2] = "DHGR" THEN 7 ELSE 0)
   + (IF c[3] = "NTSC" THEN 29 ELSE 0) + c[1] * 53) % 256
\* bmp2dhr's names
ModeArg(m) == IF m = "DHGR" THEN "dhgr" ELSE "hgr"
PaletteArg(p) == IF p = "NTSC" THEN "P5" ELSE "P0"

Start == [n |-> 0, videos |-> <<>>, disk |-> {}, where |-> {}, junk |-> {}]
\* e.videos: for each, the directory it is in and its name without the suffix
Setup(s, e) == Res([Start EXCEPT !.n = e.n, !.videos = e.videos], {})
Conf(e) == <<e.video, e.mode, e.palette>>
StartsWith(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* In the video's directory, under its name, its mode and its palette.
AtHome(s, e, path) ==
  LET v == s.videos[e.video + 1]
      k == Len(v.dir) IN
  /\ Len(path) > k + 3 /\ SubSeq(path, 1, k) = v.dir
  /\ StartsWith(v.stem, path[k + 1])
  /\ path[k + 2] = e.mode /\ path[k + 3] = e.palette

\* Every file that was ever written, and for what
Where(s, e) == TLCEval(s.where \cup {<<Conf(e) \o <<w[1], w[2]>>, w[3]>> : w \in Range(e.wrote)})
\* e.wrote: <<frame, part, path>>; e.conv: <<frame, mode, palette, size>>;
\* e.added, e.gone: paths that appeared and disappeared
Files(s, e) ==
  LET old == s.where IN
  When(\E w \in Range(e.wrote) : ~AtHome(s, e, w[3]), <<"C28", "Place">>)
  \* one file, one frame of one configuration
  \cup When(Cardinality({o[2] : o \in Where(s, e)}) # Cardinality(Where(s, e)),
            <<"C28", "Collision">>)
  \cup When(\E g \in Range(e.gone) : \E o \in old : o[2] = g /\ o[1] \in s.disk, <<"C28", "Kept">>)
Conversions(s, e, want) ==
  LET got == [k \in 1..Len(e.conv) |-> e.conv[k][1]] IN
  When(Range(got) # want, <<"C28", "Reused">>)
  \cup When(Cardinality(Range(got)) # Len(got), <<"C28", "ConvertedTwice">>)
  \cup When(\E x \in Range(e.conv) : x[2] # ModeArg(e.mode) \/ x[3] # PaletteArg(e.palette),
            <<"C28", "Requested">>)
  \cup When(\E x \in Range(e.conv) : x[4] # <<280, 192>>, <<"C28", "Size">>)
Delivered(s, e, k) ==
  When(Len(e.out) # k \/ \E i \in 1..MinOf(k, Len(e.out)) :
         LET want(bank) == [j \in 1..Len(e.at) |-> Byte(Conf(e), i - 1, bank, e.at[j])] IN
         e.out[i][1] # want(0)
           \/ e.out[i][2] # (IF e.mode = "DHGR" THEN want(1) ELSE <<>>),
       <<"C28", "Faithful">>)
\* What is on disk that is no frame
Junk(s, e) == Range(e.all) \ {o[2] : o \in Where(s, e)}

Run(s, e) ==
  LET c == Conf(e) IN
  Res([s EXCEPT !.disk = K!AfterRun(@, c[1], c[2], c[3], s.n),
                !.where = Where(s, e), !.junk = Junk(s, e)],
      Files(s, e) \cup Conversions(s, e, K!MissingOf(s.disk, c[1], c[2], c[3], s.n))
      \cup Delivered(s, e, s.n)
      \cup When(e.error # "", <<"C28", "Fails">>)
      \cup When(~(Junk(s, e) \subseteq s.junk), <<"C28", "TemporaryFiles">>)
      \* every frame has its file(s)
      \cup When(LET all == TLCEval(Range(e.all))
                     there == {o[1] : o \in {x \in Where(s, e) : x[2] \in all}} IN
                 \E i \in 0..(s.n - 1) : ~(K!FilesOf(c[1], c[2], c[3], i) \subseteq there), <<"C28", "Missing">>))
Crash(s, e) ==
  LET c == Conf(e)
      part == IF e.half THEN {"main"} ELSE {}
      torn == IF ~e.torn THEN {} ELSE IF e.half THEN {"aux"} ELSE {"main"} IN
  Res([s EXCEPT !.disk = (K!AfterRun(@, c[1], c[2], c[3], e.k)
                           \cup {<<c[1], c[2], c[3], e.k, x>> : x \in part})
                           \ {<<c[1], c[2], c[3], e.k, x>> : x \in torn},
                !.where = Where(s, e), !.junk = Junk(s, e)],
      Files(s, e)
      \cup Conversions(s, e, {i \in K!MissingOf(s.disk, c[1], c[2], c[3], s.n) : i <= e.k})
      \cup Delivered(s, e, e.k)
      \cup When(e.error = "", <<"C28", "FailureHidden">>))
Delete(s, e) ==
  Res([s EXCEPT !.disk = @ \ {Conf(e) \o <<e.i, e.part>>}],
      When(~e.done, <<"X", "Driver">>))
Step(s, e) == CASE e.ev = "Setup" -> Setup(s, e)
                [] e.ev = "Run" -> Run(s, e)
                [] e.ev = "Crash" -> Crash(s, e)
                [] e.ev = "Delete" -> Delete(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
