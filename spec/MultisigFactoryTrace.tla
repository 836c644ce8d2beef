------------------------- MODULE MultisigFactoryTrace -------------------------
EXTENDS MultisigFactory
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, s |-> s']
F03_Wallets == InvWallets(s)
F03_Money == InvMoney(s)
F03_Terms == [][StepTerms(s, last'.act, R)]_<<s, last>>
=============================================================================
