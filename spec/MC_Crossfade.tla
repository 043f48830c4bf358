--------------------------- MODULE MC_Crossfade ---------------------------
EXTENDS Crossfade
SimLens == { 1, 2, 4, 8, 16, 32, 64 }
SimSizes == { 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64 }
TreeLens == { 2, 4 }
TreeSizes == { 1, 3 }
NextTree == Fade \/ Replace \/ Commit \/ Reset \/ BackReset \/ Play
SpecTree == Init /\ [][NextTree]_vars
===========================================================================
