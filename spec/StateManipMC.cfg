INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
PROPERTIES S01_Exact
CHECK_DEADLOCK FALSE
