INIT EInit
NEXT ENext
VIEW EView
CONSTRAINT Deep
ACTION_CONSTRAINT EmitEdge
PROPERTIES W01_Authority
CHECK_DEADLOCK FALSE
