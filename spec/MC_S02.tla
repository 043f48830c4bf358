------------------------------ MODULE MC_S02 ------------------------------
EXTENDS Sequencer
SimStarts == {-4, 0, 2, 4, 6, 8, 10, 16, 24, 40}
SimDurs == {0, 2, 4, 6, 8, 12, 16, 24, 60, Inf}
SimFades == {0, 2, 4, 6, 8, 12, 20}
SimPlays == {1, 2, 3, 4, 5, 7, 8, 9, 16, 24}
SimEnds == {-6, -2, 0, 2, 4, 6, 10, 12, 20}
\* exhaustive trees
TreeStarts == {0, 2}
TreeDurs == {4}
TreeFades == {2}
TreePlays == {1, 3}
TreeEnds == {0, 2}
NextS02 == Push \/ PushRelative \/ EditAbs \/ EditRel \/ EditAbs \/ EditRel \/ Reset \/ Play \/ Play \/ SetRate
SpecS02 == Init /\ [][NextS02]_vars
NextSoak == Soak \/ Push \/ PushRelative \/ EditAbs \/ EditRel \/ Reset \/ BackReset \/ Play
SpecSoak == Init /\ [][NextSoak]_vars
NextS03 == Push \/ PushRelative \/ EditAbs \/ EditRel \/ Reset \/ BackReset \/ Play \/ SetRate
SpecS03 == Init /\ [][NextS03]_vars
===========================================================================
