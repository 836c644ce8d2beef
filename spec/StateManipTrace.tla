--------------------------- MODULE StateManipTrace ---------------------------
EXTENDS StateManip
VARIABLES s, last, node, edge
INSTANCE Trace
S01_Exact == [][StepExact(s, last'.act, [ok |-> last'.ok, s |-> s'])]_<<s, last>>
=============================================================================
