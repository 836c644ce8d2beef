INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS F02_Money F02_Locks
PROPERTIES F02_Terms F02_Ends
CHECK_DEADLOCK FALSE
