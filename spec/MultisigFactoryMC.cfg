INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS F03_Wallets F03_Money
PROPERTIES F03_Terms
CHECK_DEADLOCK FALSE
