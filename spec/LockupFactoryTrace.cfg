INIT TInit
NEXT TNext
VIEW TView
INVARIANTS F02_Money F02_Locks
PROPERTIES F02_Terms F02_Ends
CHECK_DEADLOCK FALSE
