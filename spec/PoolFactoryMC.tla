---------------------------- MODULE PoolFactoryMC ----------------------------
EXTENDS PoolFactory
CONSTANTS Alphabet, Depth
VARIABLES s, last

Cfgs == {[balance |-> "1000", epoch |-> "5", names |-> <<"p1.f.near", "p2.f.near", "p.f.near", "a_b-c.f.near", "0.f.near">>]}
Begin(w) == [act |-> "new", by |-> "alice.near", dep |-> "0", wl |-> w]
Ask(u, id, dep) == [act |-> "create_staking_pool", by |-> u, dep |-> dep, id |-> id, owner |-> Concat("owner.", u), key |-> "k1", fee |-> [n |-> "1", d |-> "3"]]
White(u, m, x) == [act |-> "whitelist", m |-> m, by |-> u, dep |-> "0", id |-> x]
Callback(u, q) == [act |-> "on_staking_pool_create", by |-> u, dep |-> "0", id |-> "p1.f.near", amount |-> MIN_DEPOSIT, who |-> "mallory.near", res |-> q]
Running(st) == {[act |-> "env_exec", i |-> Z(i), good |-> g] : i \in DOMAIN st.ops, g \in {TRUE}}
               \cup {[act |-> "env_exec", i |-> Z(i), good |-> FALSE] : i \in {j \in DOMAIN st.ops : st.ops[j].kind = "create"}}

Flow(st) ==
  IF ~st.init THEN {Begin("wl.near"), Begin("gone.near"), Begin("Bad!"), Ask("alice.near", "p1", MIN_DEPOSIT)}
  ELSE Running(st)
       \cup {Ask("alice.near", "p1", MIN_DEPOSIT), Ask("bob.near", "p1", MIN_DEPOSIT ++ "7"), Ask("bob.near", "p2", MIN_DEPOSIT ++ "7"),
             White("found.near", "add_factory", "f.near"), White("found.near", "remove_factory", "f.near")}
       \cup {Callback("mallory.near", "failed"), Callback("mallory.near", "fine"), Callback("f.near", "fine"), Begin("other.near")}

Whole == [Ask("alice.near", "p1", MIN_DEPOSIT) EXCEPT !.owner = "o.near"]
Variants(st) ==
  IF ~st.init THEN {Begin("wl.near")}
  ELSE Running(st)
       \cup {[Whole EXCEPT !.id = x] : x \in {"", "a.b", "a.", "Bad!", "-a", "a-", "a__b", "p", "a_b-c", "0"}}
       \cup {[Whole EXCEPT !.owner = x] : x \in {"x", "Bad!", "f.near", "p1.f.near"}}
       \cup {[Whole EXCEPT !.fee = f] : f \in {[n |-> "0", d |-> "0"], [n |-> "1", d |-> "0"], [n |-> "0", d |-> "1"], [n |-> "1", d |-> "1"], [n |-> "2", d |-> "1"], [n |-> "4294967294", d |-> "4294967295"]}}
       \cup {[Whole EXCEPT !.dep = x] : x \in {"0", MIN_DEPOSIT -- "1", MIN_DEPOSIT ++ "1", MIN_DEPOSIT ** "1000"}}
       \cup {[Whole EXCEPT !.key = "bad"], White("mallory.near", "add_staking_pool", "p2.f.near"), White("found.near", "add_factory", "f.near")}
Acts(st) == CASE Alphabet = "flow" -> Flow(st) [] Alphabet = "variants" -> Variants(st)
INSTANCE Explore
R == [ok |-> last'.ok, eff |-> last'.eff, s |-> s']
F01_Listed == InvListed(s)
F01_Money == InvMoney(s)
F01_Reports == InvReports(s)
F01_Funded == InvFunded(s)
F01_Ends == [][StepEnds(s, last'.act, R)]_<<s, last>>
F01_White == [][StepWhite(s, last'.act, R)]_<<s, last>>
F01_Terms == [][StepTerms(s, last'.act, R)]_<<s, last>>
=============================================================================
