INIT TInit
NEXT TNext
VIEW TView
INVARIANTS N01_Supply N01_Backed
PROPERTIES N01_Mint N02_Transfers N03_Registration
CHECK_DEADLOCK FALSE
