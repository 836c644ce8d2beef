INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
INVARIANTS Counted
PROPERTIES Executes Confirms Limited Config Foreign
CHECK_DEADLOCK FALSE
