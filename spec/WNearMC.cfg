INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS N01_Supply N01_Backed
PROPERTIES N01_Mint N02_Transfers N03_Registration
CHECK_DEADLOCK FALSE
