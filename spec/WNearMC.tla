------------------------------ MODULE WNearMC ------------------------------
EXTENDS WNear
CONSTANTS Alphabet, Depth
VARIABLES s, last

A == "alice.near"
B == "bob.near"
C == "app.near"
Cfgs == {[balance |-> "100", univ |-> <<A, B, C>>]}
New == [act |-> "new", by |-> A, dep |-> "0"]
In(u, d) == [act |-> "near_deposit", by |-> u, dep |-> d]
Out(u, d, n) == [act |-> "near_withdraw", by |-> u, dep |-> d, amount |-> n]
Move(u, d, t, n) == [act |-> "ft_transfer", by |-> u, dep |-> d, to |-> t, amount |-> n, memo |-> "none"]
Call(u, d, t, n) == [act |-> "ft_transfer_call", by |-> u, dep |-> d, to |-> t, amount |-> n, memo |-> "none", msg |-> "hi", gas |-> "300"]
Reg1(u, d, w) == [act |-> "storage_deposit", by |-> u, dep |-> d, who |-> w, only |-> "none"]
Take(u, d, n) == [act |-> "storage_withdraw", by |-> u, dep |-> d, amount |-> n]
Leave(u, d, f) == [act |-> "storage_unregister", by |-> u, dep |-> d, force |-> f]
Ans(i, g, v) == [act |-> "env_answer", i |-> i, good |-> g, val |-> v]
Cb(i) == [act |-> "env_cb", i |-> i]
Fake(u, x) == [act |-> "ft_resolve_transfer", by |-> u, dep |-> "0", from |-> B, to |-> A, amount |-> "2", res |-> x]
Start == {New, In(A, "5"), Reg1(A, MIN, "none"), [New EXCEPT !.dep = "1"]}
M(n) == MIN ++ n
Acts(st) ==
  IF ~st.init THEN Start
  ELSE IF Alphabet = "money" THEN
    {In(A, d) : d \in {"0", "3", MIN -- "1", MIN, M("2")}} \cup {In(B, M("1"))}
    \cup {Out(A, "1", n) : n \in {"0", "1", "2", "6", U128MAX}} \cup {Out(B, "1", "1"), Out(A, "0", "1"), Out(A, "2", "1")}
    \cup {Move(A, "1", B, "2"), Move(B, "1", A, "1"), Move(A, "1", C, "1")}
    \cup {Reg1(A, "0", "none"), Reg1(A, "7", "none"), Reg1(A, M("7"), B), Reg1(B, MIN -- "1", "none"), Reg1(B, MIN, "Bad!")}
    \cup {Leave(u, "1", f) : u \in {A, B}, f \in {"none", "true", "false"}} \cup {Leave(A, "0", "true")}
    \cup {Take(A, "1", n) : n \in {"none", "0", "1"}} \cup {Take(A, "0", "none"), New, [act |-> "env_donate", amount |-> "9"]}
  ELSE
    {In(A, M("4")), In(B, M("2")), Reg1(C, MIN, "none")}
    \cup {Move(A, "1", C, "0"), Move(A, "1", A, "1"), Move(A, "0", C, "1"), Move(A, "2", C, "1"), Move(C, "1", B, "1")}
    \cup {Call(A, "1", C, n) : n \in {"0", "2", "3", "9"}} \cup {Call(B, "1", C, "2"), Call(A, "0", C, "1"), Call(A, "1", A, "1"), [Call(A, "1", C, "1") EXCEPT !.gas = "20"]}
    \cup {Leave(u, "1", "true") : u \in {A, C}} \cup {Out(C, "1", "1")}
    \cup (IF Len(st.ops) > 2 THEN {} ELSE {})
    \cup {Ans(Z(i), x[1], x[2]) : i \in {j \in DOMAIN st.ops : st.ops[j].st = "called"}, x \in {<<TRUE, "0">>, <<TRUE, "1">>, <<TRUE, "7">>, <<TRUE, "garbage">>, <<TRUE, "none">>, <<FALSE, "none">>}}
    \cup {Cb(Z(i)) : i \in DOMAIN st.ops}
    \cup {Fake(u, x) : u \in {C, Self}, x \in {"failed", "5"}}

INSTANCE Explore
R == [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, s |-> s']
N01_Supply == InvSupply(s)
N01_Backed == InvBacked(s)
N01_Mint == [][StepMint(s, last'.act, R)]_<<s, last>>
N02_Transfers == [][StepTransfers(s, last'.act, R)]_<<s, last>>
N03_Registration == [][StepRegistration(s, last'.act, R)]_<<s, last>>
=============================================================================
