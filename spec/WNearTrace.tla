----------------------------- MODULE WNearTrace -----------------------------
EXTENDS WNear
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, s |-> s']
N01_Supply == InvSupply(s)
N01_Backed == InvBacked(s)
N01_Mint == [][StepMint(s, last'.act, R)]_<<s, last>>
N02_Transfers == [][StepTransfers(s, last'.act, R)]_<<s, last>>
N03_Registration == [][StepRegistration(s, last'.act, R)]_<<s, last>>
=============================================================================
