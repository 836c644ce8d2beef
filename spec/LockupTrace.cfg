INIT TInit
NEXT TNext
VIEW TView
INVARIANTS L02_Locked L03_Termination L04_One L05_Pool
PROPERTIES L01_Transfer L01_Outgo L02_Time L03_Frozen L04_Books L05_PoolChange L06_Enable L07_Key L08_Roles
CHECK_DEADLOCK FALSE
