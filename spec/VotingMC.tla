------------------------------ MODULE VotingMC ------------------------------
EXTENDS Voting
CONSTANTS Alphabet, Depth
VARIABLES s, last

S(a, b, c) == ("va.near" :> a) @@ ("vb.near" :> b) @@ ("vc.near" :> c)
Spread == {S("1", "1", "1"), S("2", "2", "2"), S("3", "2", "1"), S("4", "1", "1"), S("5", "1", "0"), S("2", "0", "1"), S("1", "1", "2")}
Cfgs == IF Alphabet = "votes" THEN {[time |-> "7", epoch |-> "0", stakes |-> x] : x \in Spread}
        ELSE {[time |-> "7", epoch |-> "3", stakes |-> x] : x \in {S("1", "1", "1"), S("3", "2", "1")}}
Voters == {"va.near", "vb.near", "vc.near", "nobody.near"}
V(u, y) == [act |-> "vote", by |-> u, dep |-> "0", yes |-> y]
New(u) == [act |-> "new", by |-> u, dep |-> "0"]
Ping1(u) == [act |-> "ping", by |-> u, dep |-> "0"]
Epoch(st, n, x) == [act |-> "env_epoch", n |-> n, stakes |-> x]
Acts(st) ==
  IF ~st.init THEN {New("va.near"), V("va.near", TRUE), Ping1("va.near")}
  ELSE {V(u, y) : u \in Voters, y \in BOOLEAN} \cup {Ping1("nobody.near"), New("va.near"), [Ping1("va.near") EXCEPT !.dep = "1"]}
       \cup (IF st.epoch \prec "6" THEN {Epoch(st, "1", x) : x \in Spread} ELSE {})
       \cup (IF st.now \prec "9" THEN {[act |-> "env_time", d |-> "1"]} ELSE {})

INSTANCE Explore
R == [ok |-> last'.ok, eff |-> last'.eff, s |-> s']
V02_Sum == InvSum(s) /\ InvCurrent(s)
V01_Result == [][StepResult(s, last'.act, R)]_<<s, last>>
V02_Votes == [][StepVotes(s, last'.act, R)]_<<s, last>>
=============================================================================
