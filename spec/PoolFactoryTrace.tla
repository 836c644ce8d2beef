--------------------------- MODULE PoolFactoryTrace ---------------------------
EXTENDS PoolFactory
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, eff |-> last'.eff, s |-> s']
F01_Listed == InvListed(s)
F01_Money == InvMoney(s)
F01_Reports == InvReports(s)
F01_Funded == InvFunded(s)
F01_Ends == [][StepEnds(s, last'.act, R)]_<<s, last>>
F01_White == [][StepWhite(s, last'.act, R)]_<<s, last>>
F01_Terms == [][StepTerms(s, last'.act, R)]_<<s, last>>
=============================================================================
