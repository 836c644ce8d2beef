---------------------------- MODULE StateManipMC ----------------------------
EXTENDS StateManip
CONSTANTS Alphabet, Depth
VARIABLES s, last
Cfgs == {[build |-> b, balance |-> "7", storage |-> st] : b \in {"sm-all", "sm-clean", "sm-replace"},
           st \in {<<>>, << <<"U1RBVEU=", "AAEC">>, <<"AA==", "/+8=">>, <<"", "eA==">> >>}}
Keys == {"", "AA==", "U1RBVEU="}
Vals == {"", "AA==", "AAECAwQFBgcICQ=="}
W(es) == [act |-> "replace", by |-> "alice.near", dep |-> "0", entries |-> es, raw |-> "none"]
D(ks) == [act |-> "clean", by |-> "alice.near", dep |-> "0", keys |-> ks, raw |-> "none"]
Malformed == {"", "{}", "[]", "{\"entries\":1}", "{\"keys\":1}", "{\"keys\":[1]}", "{\"entries\":[[\"AA==\"]]}", "{\"entries\":[[\"AA==\",\"AA==\",\"AA==\"]]}",
              "{\"entries\":[[\"AA==\",\"AA==\"]]", "{\"keys\":[\"AA==\"]", "{\"keys\":[\"AA==\",]}", "{\"entries\":[{\"AA==\":\"AA==\"}]}", "null"}
Acts(st) ==
  {W(<<>>), D(<<>>)}
  \cup {W(<< <<k, v>> >>) : k \in Keys \cup {"AB=="}, v \in Vals \cup {"!!!!"}}
  \cup {W(<< <<k, "AA==">>, <<l, v>> >>) : k \in Keys, l \in Keys \cup {"A"}, v \in Vals}
  \cup {D(<<k>>) : k \in Keys \cup {"A"}} \cup {D(<<k, l>>) : k \in Keys, l \in Keys \cup {"AA=A"}}
  \cup {[x EXCEPT !.raw = t] : x \in {W(<<>>), D(<<>>)}, t \in Malformed}
  \cup {[W(<< <<"AA==", "eA==">> >>) EXCEPT !.dep = "3"]}
INSTANCE Explore
S01_Exact == [][StepExact(s, last'.act, [ok |-> last'.ok, s |-> s'])]_<<s, last>>
=============================================================================
