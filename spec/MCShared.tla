------------------------------ MODULE MCShared ------------------------------
EXTENDS SharedMachine
MCMsg == <<<<"a", 1>>, <<"b", 2>>, <<"c", 3>>>>
=============================================================================
