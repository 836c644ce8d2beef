---------------------------- MODULE MultisigTrace ----------------------------
EXTENDS Multisig
VARIABLES s, last, node, edge
INSTANCE Trace
R == [ok |-> last'.ok, eff |-> last'.eff, s |-> s']
Counted == InvCount(s) /\ InvCounted(s)
Executes == [][StepExecute(s, last'.act, R)]_<<s, last>>
Confirms == [][StepConfirm(s, last'.act, R)]_<<s, last>>
Limited == [][StepLimit(s, last'.act, R) /\ StepNonce(s, last'.act, R) /\ StepRemoved(s, last'.act, R)]_<<s, last>>
Config == [][StepConfig(s, last'.act, R) /\ StepKeys(s, last'.act, R) /\ StepMembers(s, last'.act, R)]_<<s, last>>
Foreign == [][StepForeign(s, last'.act, R)]_<<s, last>>
=============================================================================
