------------------------------- MODULE MC_Cli -------------------------------
EXTENDS Cli
Some == {<<"output", "x", "x">>, <<"max", "1", 1048576>>, <<"max", "0", 0>>,
         <<"skip", "3", 3>>, <<"mode", "HGR", "HGR">>, <<"mode", "DHGR", "DHGR">>,
         <<"mode", "LORES", "">>, <<"palette", "IIGS", "IIGS">>, <<"palette", "RGB", "">>,
         <<"norm", "1", 1000>>, <<"rate", "22500", 22500>>}
ASSUME OutputPath(<<>>, [dir |-> <<"a", "b">>, stem |-> "c.d", suffix |-> ".e"]) = "a/b/c.d.a2m"
=============================================================================
