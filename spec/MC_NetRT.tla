----------------------------- MODULE MC_NetRT -----------------------------
EXTENDS NetRT
SimIos == { << 0, 1 >>, << 1, 1 >>, << 2, 2 >>, << 1, 2 >> }
SimArities == { << 0, 1 >>, << 1, 1 >>, << 2, 1 >>, << 2, 2 >>, << 1, 2 >>, << 0, 2 >>, << 3, 3 >>, << 1, 0 >> }
SimPlays == { 1, 2, 3, 5, 9 }
TreeIos == { << 0, 1 >> }
TreeArities == { << 0, 1 >> }
TreePlays == { 1 }
NextTree == Push \/ Remove \/ Replace \/ PipeOut \/ Reset \/ Set \/ Commit \/ Backend \/ BackReset \/ Play
SpecTree == Init /\ [][NextTree]_vars
===========================================================================
