INIT TInit
NEXT TNext
VIEW TView
PROPERTIES W01_Authority
CHECK_DEADLOCK FALSE
