INIT TInit
NEXT TNext
VIEW TView
INVARIANTS F01_Listed F01_Money F01_Reports F01_Funded
PROPERTIES F01_Ends F01_White F01_Terms
CHECK_DEADLOCK FALSE
