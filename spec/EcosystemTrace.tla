--------------------------- MODULE EcosystemTrace ---------------------------
EXTENDS Ecosystem
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, s |-> s']
E01_Covered == InvCovered(s)
E01_Known == InvKnown(s)
E01_Pool == InvPool(s) /\ InvTransit(s)
E01_Voted == InvVoted(s)
E01_Out == InvOut(s)
E01_Others == [][StepOthers(s, last'.act, R) /\ StepOwn(s, last'.act, R)]_<<s, last>>
=============================================================================
