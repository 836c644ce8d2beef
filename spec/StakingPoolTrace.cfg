INIT TInit
NEXT TNext
VIEW TView
INVARIANTS P01_Solvent P02_Price P04_Exit P05_Fee
PROPERTIES P01_NoTheft P01_Exact P02_Rounding P02_PriceNeverFalls P03_Reward P04_Unlock P05_Authority P06_Answer P06_Stake
CHECK_DEADLOCK FALSE
