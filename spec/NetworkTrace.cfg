INIT TInit
NEXT TNext
VIEW TView
INVARIANTS E02_Tokens E02_Genuine E02_Staked E02_Untouched E02_Pools E02_Factories
PROPERTIES E02_Quorum
CHECK_DEADLOCK FALSE
