-------------------------- MODULE MultisigFactoryMC --------------------------
EXTENDS MultisigFactory
CONSTANTS Alphabet, Depth
VARIABLES s, last
K(k) == [kind |-> "key", key |-> k]
A(x) == [kind |-> "account", account |-> x]
Cfgs == {[balance |-> "1000", time |-> "5", names |-> <<"w1.mf.near", "w2.mf.near", "a_b-c.mf.near">>, univ |-> <<"k:k1", "k:k2", "a:alice.near">>]}
Ask(n, dep, ms, k) == [act |-> "create", by |-> "alice.near", pk |-> "ka", gas |-> "300", dep |-> dep, name |-> n, members |-> ms, K |-> k]
Running(st) == {[act |-> "env_exec", i |-> Z(i), good |-> g] : i \in DOMAIN st.ops, g \in BOOLEAN}
Members == {<<>>, <<K("k1")>>, <<A("alice.near"), K("k1")>>, <<K("k2"), K("k1"), A("bob.near")>>, <<K("k1"), K("k1")>>, <<A("Bad!")>>, <<K("bad")>>}
Flow(st) ==
  Running(st) \cup {Ask("w1", "100", <<K("k1"), A("alice.near")>>, "2"), Ask("w1", "7", <<A("alice.near")>>, "1"), Ask("w2", "0", <<K("k1"), K("k2")>>, "1"), Ask("w2", "9", <<K("k1")>>, "2")}
Variants(st) ==
  IF st.ops # <<>> \/ st.wallets # <<>> THEN Running(st)
  ELSE {Ask("w1", "100", ms, k) : ms \in Members, k \in {"0", "1", "2", "3", "4294967296", "4294967297", U64MAX, U64MAX ++ "1"}}
       \cup {Ask(n, "100", <<K("k1")>>, "1") : n \in {"", "Bad!", "a.", "-a", "a__b", "a.b", "a_b-c"}}
       \cup {[Ask("w1", "100", <<K("k1")>>, "1") EXCEPT !.gas = "40"]}
Acts(st) == CASE Alphabet = "flow" -> Flow(st) [] Alphabet = "variants" -> Variants(st)
INSTANCE Explore
R == [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, s |-> s']
F03_Wallets == InvWallets(s)
F03_Money == InvMoney(s)
F03_Terms == [][StepTerms(s, last'.act, R)]_<<s, last>>
=============================================================================
