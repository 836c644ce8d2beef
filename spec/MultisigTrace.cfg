INIT TInit
NEXT TNext
VIEW TView
INVARIANTS Counted
PROPERTIES Executes Confirms Limited Config Foreign
CHECK_DEADLOCK FALSE
