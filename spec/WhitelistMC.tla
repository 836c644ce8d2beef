----------------------------- MODULE WhitelistMC -----------------------------
EXTENDS Whitelist
CONSTANTS Alphabet, Depth
VARIABLES s, last
Univ == <<"found.near", "fa.near", "fb.near", "p.near", "pp.near">>
Cfgs == {[univ |-> Univ]}
Acts(st) ==
  IF ~st.init THEN {[act |-> m, by |-> "found.near", dep |-> d, id |-> x] :
                      m \in {"new", "add_staking_pool", "add_factory"}, x \in {"found.near", "Bad!"}, d \in {"0", "1"}}
  ELSE {[act |-> m, by |-> u, dep |-> "0", id |-> x] :
          m \in {"add_staking_pool", "remove_staking_pool", "add_factory", "remove_factory"},
          u \in {"found.near", "fa.near", "p.near", "wl.near"}, x \in {"fa.near", "p.near", "found.near", "Bad!"}}
       \cup {[act |-> "new", by |-> "fa.near", dep |-> "0", id |-> "fa.near"], [act |-> "add_factory", by |-> "found.near", dep |-> "1", id |-> "fb.near"]}
INSTANCE Explore
W01_Authority == [][StepPools(s, last'.act, [ok |-> last'.ok, s |-> s'])]_<<s, last>>
=============================================================================
