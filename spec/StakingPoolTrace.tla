-------------------------- MODULE StakingPoolTrace --------------------------
EXTENDS StakingPool
VARIABLES s, last, node, edge
INSTANCE Trace
P01_Solvent == InvSolvent(s)
P02_Price == InvPrice(s)
P05_Fee == InvFee(s)
P04_Exit == InvExit(s)
R == [ok |-> last'.ok, s |-> s']
P01_Exact == [][StepExact(s, last'.act, R)]_<<s, last>>
P02_Rounding == [][StepRounding(s, last'.act, R)]_<<s, last>>
P02_PriceNeverFalls == [][StepPrice(s, last'.act, R)]_<<s, last>>
P03_Reward == [][StepReward(s, last'.act, R)]_<<s, last>>
P04_Unlock == [][StepUnlock(s, last'.act, R)]_<<s, last>>
P05_Authority == [][StepAuthority(s, last'.act, R)]_<<s, last>>
P06_Answer == [][StepAnswer(s, last'.act, R)]_<<s, last>>
P06_Stake == [][StepStake(s, last'.act, R)]_<<s, last>>
P01_NoTheft == [][StepNoTheft(s, last'.act, [ok |-> last'.ok, s |-> s'])]_<<s, last>>
=============================================================================
