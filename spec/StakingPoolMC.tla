--------------------------- MODULE StakingPoolMC ---------------------------
(* Bounded action sets for exhaustive exploration.  The pool starts with a *)
(* few hundred yocto of stake, so that every division actually rounds.     *)
EXTENDS StakingPool
CONSTANTS Alphabet, Depth
VARIABLES s, last

Cfg(bal) == [users |-> <<"owner", "alice", "bob">>, balance |-> bal, epoch |-> "0"]
Cfgs == {Cfg("1000000000100")} \cup (IF Alphabet = "authority" THEN {Cfg(GUARANTEE -- "1"), Cfg(GUARANTEE ++ "1"), Cfg("1000000000100") @@ [locked |-> "5"]} ELSE {})

Call(m, u) == [act |-> m, by |-> u, dep |-> "0"]
Amt(m, u, x) == [act |-> m, by |-> u, dep |-> "0", amount |-> x]
Dep(m, u, x) == [act |-> m, by |-> u, dep |-> x]
NewAct(o, f, k) == [act |-> "new", by |-> "owner", dep |-> "0", owner |-> o, ownerValid |-> o # "Bad!", key |-> k,
                    keyValid |-> k # "bad", fee |-> f]
F(n, d) == [n |-> n, d |-> d]
SetFee(u, f) == [act |-> "update_reward_fee_fraction", by |-> u, dep |-> "0", fee |-> f]
SetKey(u, k) == [act |-> "update_staking_key", by |-> u, dep |-> "0", key |-> k, keyValid |-> k # "bad"]
DoVote(u, t) == [act |-> "vote", by |-> u, dep |-> "0", target |-> t, targetValid |-> t # "Bad!", vote |-> TRUE]
EnvEpoch(st, n, rew) ==
  [act |-> "env_epoch", n |-> n, reward |-> rew, unlock |-> SatSub(st.locked ++ rew, st.prop)]

Asks == {[act |-> "ask", m |-> m, who |-> u] : m \in {"unstaked", "staked", "total", "available"}, u \in {"alice", "owner", "nobody"}}
        \cup {[act |-> "ask", m |-> "pages", size |-> Z(k)] : k \in 1..3}
Quiet(st) == st.stakeQ = <<>> /\ st.cbQ = <<>> /\ st.xferQ = <<>>
Small(st, u) == (Acc(st, u).un ++ Acc(st, u).sh) \prec "120"

(* One thing at a time: deposits, stakes, rewards, withdrawals by two users and the owner. *)
Funds(st) ==
  IF ~st.init THEN {NewAct("owner", F("1", "10"), "k1"), NewAct("owner", F("1", "1"), "k1")}
  ELSE IF st.stakeQ # <<>> THEN {[act |-> "env_stake", refuse |-> FALSE]}
  ELSE IF st.cbQ # <<>> THEN {[act |-> "env_cb"]}
  ELSE IF st.xferQ # <<>> THEN {[act |-> "env_xfer", refuse |-> FALSE]}
  ELSE {Dep("deposit_and_stake", "alice", "37"), Call("unstake_all", "alice"), Amt("unstake", "alice", "5"),
        Call("withdraw_all", "alice"), Amt("withdraw", "alice", "4"), Amt("stake", "alice", "3"), Call("stake_all", "alice"),
        Dep("deposit", "bob", "11"), Call("stake_all", "bob"), Call("unstake_all", "bob"), Call("withdraw_all", "bob"),
        Call("unstake_all", "owner"), Call("ping", "bob")} \cup (IF st.epoch = "1" THEN Asks ELSE {})
       \cup (IF st.epoch \prec "9" THEN {EnvEpoch(st, "1", "13"), EnvEpoch(st, "4", "0")} ELSE {})

(* Stake actions, their failures and callbacks, interleaved with everything that restakes. *)
Stakes(st) ==
  IF ~st.init THEN {NewAct("owner", F("1", "10"), "k1")}
  ELSE {[act |-> "env_stake", refuse |-> FALSE], [act |-> "env_stake", refuse |-> TRUE], [act |-> "env_cb"]}
       \cup (IF Len(st.stakeQ) + Len(st.cbQ) < 3
             THEN {Dep("deposit_and_stake", "alice", "37"), Call("unstake_all", "alice"), Call("pause_staking", "owner"),
                   Call("resume_staking", "owner"), SetKey("owner", "k2"), Call("ping", "bob"), Call("on_stake_action", "owner")}
             ELSE {})
       \cup (IF st.epoch \prec "3" THEN {EnvEpoch(st, "1", "7")} ELSE {})

(* Who may do what; malformed and unpaid-for calls. *)
Authority(st) ==
  IF ~st.init THEN {NewAct(o, f, k) : o \in {"owner", "Bad!"}, f \in {F("1", "10"), F("0", "0"), F("2", "1"), F("1", "1")}, k \in {"k1", "bad"}}
                   \cup {Call(m, "alice") : m \in {"ping", "stake_all", "withdraw_all", "pause_staking"}} \cup {Dep("deposit", "alice", "5")}
  ELSE UNION {{Call("pause_staking", u), Call("resume_staking", u), SetKey(u, "k2"), SetKey(u, "bad"), SetFee(u, F("1", "3")),
               SetFee(u, F("3", "2")), SetFee(u, F("0", "0")), DoVote(u, "voting.near"), DoVote(u, "Bad!"),
               Call("on_stake_action", u), NewAct(u, F("0", "1"), "k2")} : u \in {"owner", "alice", "pool.near"}}
       \cup {Dep(m, "owner", "1") : m \in {"ping", "pause_staking", "stake_all", "unstake_all", "withdraw_all"}}
       \cup {Dep("deposit", "alice", "20"), Dep("deposit_and_stake", "alice", "0"), Amt("stake", "alice", "0"), Amt("unstake", "alice", "0"),
             Amt("withdraw", "alice", "0"), Amt("stake", "alice", "21"), Amt("withdraw", "alice", "21"), Amt("stake", "alice", U128MAX), Amt("unstake", "alice", U128MAX)}
       \cup (IF st.epoch \prec "2" THEN {EnvEpoch(st, "1", "7")} ELSE {})
       \cup Asks

Acts(st) == IF Alphabet = "funds" THEN Funds(st) ELSE IF Alphabet = "stakes" THEN Stakes(st) ELSE Authority(st)

INSTANCE Explore
P01_Solvent == InvSolvent(s)
P02_Price == InvPrice(s)
P04_Exit == InvExit(s)
P05_FeeFraction == InvFee(s)
R == [ok |-> last'.ok, s |-> s']
P01_NoTheft == [][StepNoTheft(s, last'.act, R)]_<<s, last>>
P01_Exact == [][StepExact(s, last'.act, R)]_<<s, last>>
P02_Rounding == [][StepRounding(s, last'.act, R)]_<<s, last>>
P02_PriceNeverFalls == [][StepPrice(s, last'.act, R)]_<<s, last>>
P03_Reward == [][StepReward(s, last'.act, R)]_<<s, last>>
P04_Unlock == [][StepUnlock(s, last'.act, R)]_<<s, last>>
P05_Authority == [][StepAuthority(s, last'.act, R)]_<<s, last>>
P06_Answer == [][StepAnswer(s, last'.act, R)]_<<s, last>>
P06_Stake == [][StepStake(s, last'.act, R)]_<<s, last>>
=============================================================================
