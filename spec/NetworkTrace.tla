--------------------------- MODULE NetworkTrace ---------------------------
EXTENDS Network
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, s |-> s', eff |-> last'.eff, ret |-> last'.ret]
E02_Tokens == InvTokens(s)
E02_Genuine == InvGenuine(s)
E02_Staked == InvStaked(s)
E02_Untouched == InvUntouched(s)
E02_Pools == InvPools(s) /\ InvPaths(s)
E02_Factories == InvFactories(s)
E02_Quorum == [][StepQuorum(s, last'.act, R) /\ StepConfirmed(s, last'.act, R)]_<<s, last>>
=============================================================================
