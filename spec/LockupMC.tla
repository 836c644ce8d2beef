------------------------------ MODULE LockupMC ------------------------------
(* Bounded action sets.  The account holds the storage reserve and 1000    *)
(* yocto, time is counted in single nanoseconds: every division rounds.    *)
EXTENDS Lockup
CONSTANTS Alphabet, Depth
VARIABLES s, last

Sched == [start |-> "3", cliff |-> "10", end |-> "37"]
Cfgs == {[balance |-> RESERVE ++ "1000", time |-> "5", sched |-> Sched]}

Call(m, u) == [act |-> m, by |-> u, dep |-> "0"]
Amt(m, x) == [act |-> m, by |-> "owner.near", dep |-> "0", amount |-> x]
Base == [act |-> "new", by |-> "creator.near", dep |-> "0", valid |-> TRUE, owner |-> "owner.near", wl |-> "wl.near",
         found |-> "none", dur |-> "0", rel |-> "none", ts |-> "none", on |-> TRUE, xts |-> "4", poll |-> "poll.near",
         vesting |-> [kind |-> "none"]]
Sch == [kind |-> "schedule", sched |-> Sched]
Hash == [kind |-> "hash", sched |-> Sched, salt |-> "c2FsdA=="]
WithVest(v) == [Base EXCEPT !.vesting = v, !.found = "found.near"]
SelectPool(u, p) == [act |-> "select_staking_pool", by |-> u, dep |-> "0", pool |-> p, poolValid |-> p # "Bad!"]
Send(u, x, to) == [act |-> "transfer", by |-> u, dep |-> "0", amount |-> x, receiver |-> to, receiverValid |-> to # "Bad!"]
Key(u) == [act |-> "add_full_access_key", by |-> u, dep |-> "0", key |-> "k1", keyValid |-> TRUE]
PayTo(u, to) == [act |-> "termination_withdraw", by |-> u, dep |-> "0", receiver |-> to, receiverValid |-> to # "Bad!"]
Term(u) == [act |-> "terminate_vesting", by |-> u, dep |-> "0", reveal |-> FALSE, sched |-> Sched, salt |-> "none"]
Reveal(u, c, salt) == [act |-> "terminate_vesting", by |-> u, dep |-> "0", reveal |-> TRUE, sched |-> c, salt |-> salt]
D(n) == [act |-> "env_time", d |-> n]

(* A hashed schedule is hidden, so the lockup has to shadow it (README): it ends later, and starts after the cliff. *)
Hidden == [WithVest(Hash) EXCEPT !.dur = "10", !.rel = "90"]

Question(m, c) == [act |-> "ask", m |-> m, sched |-> c]
Questions == {Question(m, c) : m \in {"unvested", "lockedVested"}, c \in {Sched, [start |-> "4", cliff |-> "4", end |-> "31"], [start |-> "2", cliff |-> "25", end |-> "26"]}}

(* A faithful whitelist, poll and pool: what each pending remote call may answer. *)
Answers(st, i) ==
  LET op == st.ops[i]
      A(g, v) == [act |-> "env_resolve", i |-> Z(i), good |-> g, val |-> v]
      fine == A(TRUE, "none") no == A(FALSE, "none")
  IN CASE op.kind = "select" -> {A(TRUE, "true"), A(TRUE, "false"), no}
       [] op.kind = "poll" -> {A(TRUE, "7"), A(TRUE, "none"), no}
       [] op.kind = "refresh" -> {A(TRUE, st.at)}
       [] op.kind \in {"ask_unstaked", "ask_unstaked_t"} -> {A(TRUE, "0"), A(TRUE, st.at // "2"), A(TRUE, st.at)}
       [] op.kind = "ask_staked_t" -> {A(TRUE, "0"), A(TRUE, st.at)}
       [] op.kind \in {"withdraw", "withdraw_t"} -> IF op.amt \preceq st.at THEN {fine, no} ELSE {no}
       [] OTHER -> {fine, no}
Pending(st) == UNION {IF st.ops[i].phase = "call" THEN Answers(st, i) ELSE {[act |-> "env_cb", i |-> Z(i)]} : i \in DOMAIN st.ops}
Arrivals(st) == IF st.transit # "0" THEN {[act |-> "env_arrive"]} ELSE {}

(* The owner and the pool, with released tokens to spend meanwhile. *)
PoolActs(st) ==
  IF ~st.init THEN {[Base EXCEPT !.rel = "40"]}
  ELSE Pending(st) \cup Arrivals(st)
       \cup (IF Len(st.ops) > 1 THEN {} ELSE
             {SelectPool("owner.near", "pool.near"), Call("unselect_staking_pool", "owner.near"),
              Amt("deposit_and_stake", "900"), Amt("deposit_to_staking_pool", "150"), Amt("withdraw_from_staking_pool", "70"),
              Call("withdraw_all_from_staking_pool", "owner.near"), Call("refresh_staking_pool_balance", "owner.near"),
              Amt("unstake", "60"), Call("unstake_all", "owner.near"), Send("owner.near", "40", "bob.near")})
       \cup (IF st.now \preceq "50" THEN {D("20")} ELSE {})
       \cup (IF st.at # "0" /\ st.at \prec "1000" THEN {[act |-> "env_reward", amount |-> "31"]} ELSE {})

(* Termination with a deficit, collecting from the pool, paying in parts. *)
TermActs(st) ==
  IF ~st.init THEN {[WithVest(Sch) EXCEPT !.rel = "20"], Hidden}
  ELSE IF st.pool = "none" /\ st.ops = <<>> /\ st.termTotal = "none" /\ st.now = "5"
       THEN {SelectPool("owner.near", "pool.near"), D("14"), Term("found.near"), Reveal("found.near", Sched, "c2FsdA==")}
  ELSE (IF st.termTotal = "none" /\ st.pool = "none" THEN {a \in Pending(st) : a.act = "env_cb" \/ a.val = "true"} ELSE Pending(st))
       \cup Arrivals(st)
       \cup {Term("found.near"), Reveal("found.near", Sched, "c2FsdA=="), Call("termination_prepare_to_withdraw", "found.near"),
             PayTo("found.near", "treasury.near")}
       \cup (IF Terminating(st) THEN {Amt("deposit_and_stake", "700"), Send("owner.near", "10", "bob.near"), Call("withdraw_all_from_staking_pool", "owner.near"), Key("owner.near")}
             ELSE {Amt("deposit_and_stake", "700"), Send("owner.near", "200", "bob.near")})
       \cup (IF st.now \preceq "20" THEN {D("14")} ELSE {})

(* Releases, the poll, transfers and the full access key, over time. *)
ReleaseActs(st) ==
  IF ~st.init THEN {[b EXCEPT !.dur = d, !.rel = r, !.ts = t, !.on = o] :
                      b \in {Base, WithVest(Sch)}, d \in {"0", "9"}, r \in {"none", "30"}, t \in {"none", "12"}, o \in BOOLEAN}
  ELSE Pending(st) \cup {Send("owner.near", "333", "bob.near"), Key("owner.near"), Send("owner.near", Max(Liquid(st), "1"), "bob.near"),
                         Send("owner.near", Liquid(st) ++ "1", "bob.near")}
       \cup (IF Len(st.ops) > 1 THEN {} ELSE {Call("check_transfers_vote", "owner.near")})
       \cup (IF st.now \preceq "40" THEN {D("8"), D("5")} ELSE {})
       \cup Questions

(* The foundation takes everything back before the cliff: someone else's tokens keep the account alive. *)
WholeActs(st) ==
  IF ~st.init THEN {[WithVest(Sch) EXCEPT !.rel = r, !.on = o] : r \in {"none", "30"}, o \in BOOLEAN}
  ELSE Pending(st) \cup {Call("termination_prepare_to_withdraw", "found.near"), Term("found.near"), PayTo("found.near", "treasury.near"),
                         Key("owner.near"), Send("owner.near", "1", "bob.near"), Send("owner.near", Max(Liquid(st), "1"), "bob.near")}
       \cup (IF Len(st.ops) > 1 THEN {} ELSE {Call("check_transfers_vote", "owner.near"), SelectPool("owner.near", "pool.near")})
       \cup (IF st.bal \preceq RESERVE ++ "2000" THEN {[act |-> "env_donate", amount |-> RESERVE]} ELSE {})
       \cup (IF st.now \preceq "10" THEN {D("7")} ELSE {})

(* Who may do what; parameters that must be refused; colluding calls to the callbacks. *)
Names == {"owner.near", "found.near", "mallory.near"}
Callbacks == {"on_whitelist_is_whitelisted", "on_staking_pool_deposit", "on_staking_pool_deposit_and_stake", "on_staking_pool_withdraw",
              "on_staking_pool_stake", "on_staking_pool_unstake", "on_staking_pool_unstake_all", "on_get_result_from_transfer_poll",
              "on_get_account_total_balance", "on_get_account_unstaked_balance_to_withdraw_by_owner", "on_withdraw_unvested_amount",
              "on_get_account_staked_balance_to_unstake", "on_staking_pool_unstake_for_termination",
              "on_get_account_unstaked_balance_to_withdraw", "on_staking_pool_withdraw_for_termination"}
Cb(u, m) == [act |-> "callback", by |-> u, dep |-> "0", method |-> m]
BadSched == {[start |-> "11", cliff |-> "10", end |-> "37"], [start |-> "3", cliff |-> "38", end |-> "37"], [start |-> "40", cliff |-> "40", end |-> "40"]}
OwnerCalls(u) == {Amt("deposit_and_stake", "500"), Amt("deposit_to_staking_pool", "1"), Amt("withdraw_from_staking_pool", "5"),
                  Amt("stake", "3"), Amt("unstake", "3"), Amt("deposit_and_stake", "0"), Amt("deposit_to_staking_pool", "0"), Amt("withdraw_from_staking_pool", "0"),
                  Amt("stake", "0"), Amt("unstake", "0"), Amt("deposit_to_staking_pool", "1001"), Send(u, "0", "bob.near"), Send(u, "5", "Bad!"), Send(u, "5", "bob.near"),
                  SelectPool(u, "pool.near"), SelectPool(u, "Bad!"), Key(u), PayTo(u, "treasury.near"), PayTo(u, "Bad!"), Term(u),
                  Reveal(u, Sched, "c2FsdA=="), Reveal(u, [Sched EXCEPT !.end = "38"], "c2FsdA=="), Reveal(u, Sched, "c2FsdB=="), Reveal(u, Sched, "")}
                 \cup {Call(m, u) : m \in {"unselect_staking_pool", "withdraw_all_from_staking_pool", "refresh_staking_pool_balance", "unstake_all",
                                         "check_transfers_vote", "termination_prepare_to_withdraw"}}
By(A, u) == {[a EXCEPT !.by = u] : a \in A}
AuthActs(st) ==
  IF ~st.init THEN {Base, WithVest(Sch), Hidden, [Base EXCEPT !.on = FALSE], [Hidden EXCEPT !.found = "none"],
                    [Base EXCEPT !.found = "found.near"], [Base EXCEPT !.owner = "Bad!", !.valid = FALSE], [Base EXCEPT !.wl = "Bad!", !.valid = FALSE],
                    [Base EXCEPT !.poll = "Bad!", !.on = FALSE, !.valid = FALSE], [WithVest(Sch) EXCEPT !.found = "Bad!", !.valid = FALSE],
                    [Base EXCEPT !.dep = "1"]} \cup {WithVest([kind |-> "schedule", sched |-> c]) : c \in BadSched}
                   \cup OwnerCalls("owner.near")
  ELSE Pending(st)
       \cup UNION {By(OwnerCalls(u), u) : u \in Names}
       \cup {[a EXCEPT !.dep = "1"] : a \in OwnerCalls("owner.near") \cup By(OwnerCalls("found.near"), "found.near")}
       \cup {Cb(u, m) : u \in {"owner.near", "found.near"}, m \in Callbacks} \cup {Base}
       \cup (IF st.now \preceq "9" THEN {D("8")} ELSE {})

Acts(st) == IF Alphabet = "pool" THEN PoolActs(st) ELSE IF Alphabet = "termination" THEN TermActs(st)
            ELSE IF Alphabet = "release" THEN ReleaseActs(st)
            ELSE IF Alphabet = "whole" THEN WholeActs(st) ELSE AuthActs(st)

INSTANCE Explore
L01_Covered == InvCovered(s)
L02_Locked == InvLocked(s)
L03_Termination == InvTermination(s)
L03_Retry == InvRetry(s)
L04_One == InvOne(s)
L05_Pool == InvPool(s)
R == [ok |-> last'.ok, s |-> s']
L01_Transfer == [][StepTransfer(s, last'.act, R)]_<<s, last>>
L01_Outgo == [][StepOutgo(s, last'.act, R)]_<<s, last>>
L02_Time == [][StepTime(s, last'.act, R)]_<<s, last>>
L03_Frozen == [][StepFrozen(s, last'.act, R)]_<<s, last>>
L04_Books == [][StepBooks(s, last'.act, R)]_<<s, last>>
L05_PoolChange == [][StepPool(s, last'.act, R)]_<<s, last>>
L06_Enable == [][StepEnable(s, last'.act, R)]_<<s, last>>
L07_Key == [][StepKey(s, last'.act, R)]_<<s, last>>
L08_Roles == [][StepRoles(s, last'.act, R)]_<<s, last>>
=============================================================================
