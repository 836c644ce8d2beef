INIT TInit
NEXT TNext
VIEW TView
INVARIANTS F03_Wallets F03_Money
PROPERTIES F03_Terms
CHECK_DEADLOCK FALSE
