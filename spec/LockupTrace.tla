---------------------------- MODULE LockupTrace ----------------------------
EXTENDS Lockup
VARIABLES s, last, node, edge
INSTANCE Trace
L02_Locked == InvLocked(s)
L03_Termination == InvTermination(s)
L04_One == InvOne(s)
L05_Pool == InvPool(s)
R == [ok |-> last'.ok, s |-> s']
L01_Transfer == [][StepTransfer(s, last'.act, R)]_<<s, last>>
L01_Outgo == [][StepOutgo(s, last'.act, R)]_<<s, last>>
L02_Time == [][StepTime(s, last'.act, R)]_<<s, last>>
L03_Frozen == [][StepFrozen(s, last'.act, R)]_<<s, last>>
L04_Books == [][StepBooks(s, last'.act, R)]_<<s, last>>
L05_PoolChange == [][StepPool(s, last'.act, R)]_<<s, last>>
L06_Enable == [][StepEnable(s, last'.act, R)]_<<s, last>>
L07_Key == [][StepKey(s, last'.act, R)]_<<s, last>>
L08_Roles == [][StepRoles(s, last'.act, R)]_<<s, last>>
=============================================================================
