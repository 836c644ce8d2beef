INIT TInit
NEXT TNext
VIEW TView
INVARIANTS V02_Sum
PROPERTIES V01_Result V02_Votes
CHECK_DEADLOCK FALSE
