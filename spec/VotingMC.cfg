INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS V02_Sum
PROPERTIES V01_Result V02_Votes
CHECK_DEADLOCK FALSE
