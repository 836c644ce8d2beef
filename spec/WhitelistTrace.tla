---------------------------- MODULE WhitelistTrace ----------------------------
EXTENDS Whitelist
VARIABLES s, last, node, edge
INSTANCE Trace
W01_Authority == [][StepPools(s, last'.act, [ok |-> last'.ok, s |-> s'])]_<<s, last>>
=============================================================================
