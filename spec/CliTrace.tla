------------------------------ MODULE CliTrace ------------------------------
(* Checks what real command lines did. *)
EXTENDS TraceLib
C == INSTANCE Cli WITH Tokens <- {}, MaxTokens <- 0, todo <- 0, cfg <- 0,
       refused <- 0, seen <- 0
Start == [none |-> 0]
Built(e) ==
  LET c == C!Effective(e.tokens)
      m == e.built IN
  When(m.filename # e.input, <<"C29", "Input">>)
  \cup When(m.skip # c.skip, <<"C29", "FrameSkip">>)
  \cup When(m.rate # c.rate, <<"C29", "AudioRate">>)
  \cup When(m.norm # c.norm, <<"C29", "Normalisation">>)
  \cup When(m.max # c.max, <<"C29", "SizeLimit">>)
  \cup When(m.mode # c.mode \/ e.head[7] # (IF c.mode = "DHGR" THEN 1 ELSE 0), <<"C29", "Mode">>)
  \cup When(m.palette # c.palette, <<"C29", "Palette">>)
Ran(s, e) ==
  Res(s, IF C!Refused(e.tokens)
         THEN When(e.code = 0, <<"C29", "NotRefused">>)
              \cup When(e.files # <<>> \/ e.movies # 0, <<"C29", "RefusedTooLate">>)
         ELSE When(e.code # 0 \/ e.movies # 1, <<"C29", "Fails">>)
              \cup (IF e.code = 0 /\ e.movies = 1
                    THEN Built(e)
                         \cup When(e.files # <<<<C!OutputPath(e.tokens, e.name),
                                                 e.streamed[1], e.streamed[2]>>>>,
                                   <<"C29", "OutputFile">>)
                    ELSE {}))
Step(s, e) == CASE e.ev = "Ran" -> Ran(s, e)
                [] OTHER -> Res(s, {<<"X", "UnknownEvent">>})
Final(s) == {}
VARIABLES l, st, bad
INSTANCE TraceMain
===========================================================================
