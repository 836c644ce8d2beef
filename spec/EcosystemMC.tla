----------------------------- MODULE EcosystemMC -----------------------------
(* Bounded action sets.  A pool with a stake of 100 yocto, into which  *)
(* all but 300 yocto of the lockup go: every division rounds.             *)
EXTENDS Ecosystem
CONSTANTS Alphabet, Depth
VARIABLES s, last

Sched == [start |-> "3", cliff |-> "10", end |-> "37"]
Terms == [act |-> "new", by |-> "creator.near", dep |-> "0", valid |-> TRUE, owner |-> "owner.near", wl |-> "wl.near",
          found |-> "none", dur |-> "0", rel |-> "40", ts |-> "none", on |-> TRUE, xts |-> "4", poll |-> "poll.near",
          vesting |-> [kind |-> "none"]]
Vesting == [Terms EXCEPT !.found = "found.near", !.vesting = [kind |-> "schedule", sched |-> Sched], !.rel = "none"]
Make(n, d) == [act |-> "new", by |-> "operator.near", dep |-> "0", owner |-> "operator.near", ownerValid |-> TRUE, key |-> "k1", keyValid |-> TRUE, fee |-> [n |-> n, d |-> d]]
Cfg(t, m) == [lockup |-> [balance |-> (L!RESERVE ** "4") ++ "1000", time |-> "5", sched |-> Sched, poll |-> ~t.on], terms |-> t,
              pool |-> [users |-> <<"operator.near", "alice.near", LOCK>>, balance |-> "1000000000100", epoch |-> "0"], make |-> m,
              stakes |-> [x \in {"pool.near", "other.near"} |-> IF x = "pool.near" THEN "7" ELSE "3"]]
Cfgs == IF Alphabet = "journey" THEN {Cfg(Terms, Make("1", "10")), Cfg(Vesting, Make("1", "3"))}
        ELSE IF Alphabet = "poll" THEN {Cfg([Terms EXCEPT !.on = FALSE], Make("1", "10"))}
        ELSE {Cfg(Vesting, Make("1", "10"))}

On(x) == [act |-> "lockup", a |-> x]
Own(m) == On([act |-> m, by |-> "owner.near", dep |-> "0"])
OwnAmt(m, x) == On([act |-> m, by |-> "owner.near", dep |-> "0", amount |-> x])
Stake(st) == OwnAmt("deposit_and_stake", Max(SatSub(L!Spendable(st.l), "300"), "7"))
Select(p) == On([act |-> "select_staking_pool", by |-> "owner.near", dep |-> "0", pool |-> p, poolValid |-> TRUE])
Send(x) == On([act |-> "transfer", by |-> "owner.near", dep |-> "0", amount |-> x, receiver |-> "bob.near", receiverValid |-> TRUE])
Term == On([act |-> "terminate_vesting", by |-> "found.near", dep |-> "0", reveal |-> FALSE, sched |-> Sched, salt |-> "none"])
Prepare == On([act |-> "termination_prepare_to_withdraw", by |-> "found.near", dep |-> "0"])
Pay == On([act |-> "termination_withdraw", by |-> "found.near", dep |-> "0", receiver |-> "treasury.near", receiverValid |-> TRUE])
AtPool(x) == [act |-> "pool", a |-> x]
Alice(m) == AtPool([act |-> m, by |-> "alice.near", dep |-> "0"])
AliceDep(x) == AtPool([act |-> "deposit_and_stake", by |-> "alice.near", dep |-> x])
Owner(m) == AtPool([act |-> m, by |-> "operator.near", dep |-> "0"])
Remove == [act |-> "whitelist", a |-> [act |-> "remove_staking_pool", by |-> "found.near", dep |-> "0", id |-> POOL]]
Vote(u, y) == [act |-> "poll", a |-> [act |-> "vote", by |-> u, dep |-> "0", yes |-> y]]
Told(u, y) == AtPool([act |-> "vote", by |-> u, dep |-> "0", target |-> "poll.near", targetValid |-> TRUE, vote |-> y])
Fwd(st, n, rew) == [act |-> "env_epoch", n |-> n, reward |-> rew, unlock |-> SatSub(st.p.locked ++ rew, st.p.prop)]
D(n) == [act |-> "env_time", d |-> n]
Go(st) ==
  (IF st.p.stakeQ # <<>> THEN {[act |-> "env_stake", refuse |-> FALSE]} ELSE {})
  \cup (IF st.p.cbQ # <<>> THEN {[act |-> "env_pool_cb"]} ELSE {})
  \cup (IF st.dest # <<>> THEN {[act |-> "env_xfer", refuse |-> FALSE]} ELSE {})
  \cup (IF st.votes # <<>> THEN {[act |-> "env_vote"]} ELSE {})
  \cup {IF st.l.ops[i].phase = "call" THEN [act |-> "env_remote", i |-> Z(i), good |-> TRUE] ELSE [act |-> "env_cb", i |-> Z(i)] : i \in DOMAIN st.l.ops}
First(A) == IF A = {} THEN {} ELSE {CHOOSE a \in A : TRUE}
Grown(st) == P!TotalOf(st.p, "alice.near") # "0"

(* One thing after the other: everything an owner, a delegator and a foundation do. *)
Journey(st) ==
  LET g == First(Go(st)) IN
  IF g # {} THEN g
  ELSE IF st.l.pool = "none" /\ st.l.confirmed = {} THEN {Select(POOL)}
  ELSE IF st.l.pool = "none" THEN {}
  ELSE {Stake(st), OwnAmt("unstake", "111"), Own("unstake_all"), Own("withdraw_all_from_staking_pool"),
        Own("refresh_staking_pool_balance"), Own("unselect_staking_pool"), Send(Max(L!Liquid(st.l), "1"))}
       \cup (IF st.l.found # "none" THEN {Term, Prepare, Pay} ELSE {})
       \cup (IF Grown(st) THEN {Alice("unstake_all")} ELSE {AliceDep("37")})
       \cup (IF st.p.epoch \prec "8" THEN {Fwd(st, "1", "13"), Fwd(st, "4", "0")} ELSE {})
       \cup (IF st.l.now \preceq "20" THEN {D("14")} ELSE {})

(* Everything in flight in any order; refused stake actions (never refused: to stake nothing); termination in the middle. *)
Race(st) ==
  Go(st) \cup (IF st.p.stakeQ # <<>> /\ Head(st.p.stakeQ).amt # "0" THEN {[act |-> "env_stake", refuse |-> TRUE]} ELSE {})
  \cup (IF st.l.pool = "none" THEN (IF st.l.confirmed = {} /\ st.l.ops = <<>> THEN {Select(POOL), Select("pool2.near")} ELSE {})
        ELSE IF Len(st.p.stakeQ) + Len(st.p.cbQ) > 1 THEN {}
        ELSE {Stake(st), Own("unstake_all"), Own("withdraw_all_from_staking_pool"),
              Own("refresh_staking_pool_balance"), Term, Prepare, Pay, Send("20"), Owner("pause_staking")}
             \cup (IF st.p.epoch \prec "4" THEN {Fwd(st, "4", "9")} ELSE {}))
  \cup (IF st.l.now \prec "9" THEN {D("14")} ELSE {})

(* The poll and the whitelist in use. *)
Poll(st) ==
  Go(st)
  \cup {Vote("other.near", TRUE), Vote("nobody.near", TRUE), Remove}
  \cup (IF Len(st.votes) > 1 THEN {} ELSE {Told("operator.near", TRUE), Told("operator.near", FALSE), Told("owner.near", TRUE)})
  \cup (IF Len(st.l.ops) > 1 THEN {} ELSE {Own("check_transfers_vote"), Select(POOL), Send("5")})
  \cup (IF st.l.now \preceq "20" THEN {D("8")} ELSE {})
  \cup (IF st.p.epoch \prec "1" THEN {Fwd(st, "1", "0")} ELSE {})

Acts(st) == IF Alphabet = "journey" THEN Journey(st) ELSE IF Alphabet = "poll" THEN Poll(st) ELSE Race(st)

INSTANCE Explore
R == [ok |-> last'.ok, s |-> s']
E01_Covered == InvCovered(s)
E01_Known == InvKnown(s)
E01_Pool == InvPool(s) /\ InvTransit(s)
E01_Voted == InvVoted(s)
E01_Out == InvOut(s)
E01_Others == [][StepOthers(s, last'.act, R) /\ StepOwn(s, last'.act, R) /\ StepVoted(s, last'.act, R) /\ StepTold(s, last'.act, R)]_<<s, last>>
=============================================================================
