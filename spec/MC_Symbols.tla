---- MODULE MC_Symbols ----
EXTENDS Symbols
MCKinds == {Sym, <<"s", "p", "a", "n">>}
MCNames == {<<"\"", "o", "\"">>, <<"\"", "p", "\"">>}
MCValues == {<<"0">>, <<"1", "+", "2">>}
====
