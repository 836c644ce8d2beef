INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS E02_Tokens E02_Genuine E02_Staked E02_Untouched E02_Pools E02_Factories
PROPERTIES E02_Quorum
CHECK_DEADLOCK FALSE
