----------------------------- MODULE VotingTrace -----------------------------
EXTENDS Voting
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, eff |-> last'.eff, s |-> s']
V02_Sum == InvSum(s) /\ InvCurrent(s)
V01_Result == [][StepResult(s, last'.act, R)]_<<s, last>>
V02_Votes == [][StepVotes(s, last'.act, R)]_<<s, last>>
=============================================================================
