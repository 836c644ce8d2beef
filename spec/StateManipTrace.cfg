INIT TInit
NEXT TNext
VIEW TView
PROPERTIES S01_Exact
CHECK_DEADLOCK FALSE
