INIT TInit
NEXT TNext
VIEW TView
INVARIANTS E01_Covered E01_Known E01_Pool E01_Voted E01_Out
PROPERTIES E01_Others
CHECK_DEADLOCK FALSE
