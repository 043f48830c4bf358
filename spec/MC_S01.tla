------------------------------ MODULE MC_S01 ------------------------------
EXTENDS Sequencer
\* random exploration: many events, all fade combinations
SimStarts == {-5, -1, 0, 1, 2, 3, 5, 7, 8, 9, 12, 17, 40}
SimDurs == {0, 1, 2, 3, 4, 6, 8, 9, 11, 16, 25, 60, Inf}
SimFades == {0, 1, 2, 3, 4, 6, 8, 9, 11, 20}
SimPlays == {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 40}
SimEnds == {0}
\* exhaustive tree
TreeStarts == {-1, 0, 2}
TreeDurs == {1, 3}
TreeFades == {0, 2}
TreePlays == {1, 4}
TreeEnds == {0}
NextS01 == Push \/ PushRelative \/ Play
SpecS01 == Init /\ [][NextS01]_vars
===========================================================================
