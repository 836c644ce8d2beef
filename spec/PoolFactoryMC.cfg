INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS F01_Listed F01_Money F01_Reports F01_Funded
PROPERTIES F01_Ends F01_White F01_Terms
CHECK_DEADLOCK FALSE
