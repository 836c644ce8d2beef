-------------------------- MODULE LockupFactoryTrace --------------------------
EXTENDS LockupFactory
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, s |-> s']
F02_Money == InvMoney(s)
F02_Locks == InvLocks(s)
F02_Terms == [][StepTerms(s, last'.act, R)]_<<s, last>>
F02_Ends == [][StepEnds(s, last'.act, R)]_<<s, last>>
=============================================================================
