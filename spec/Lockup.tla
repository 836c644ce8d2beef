------------------------------- MODULE Lockup -------------------------------
(***************************************************************************)
(* The lockup / vesting contract (lockup/src).                             *)
(*                                                                         *)
(* The state is what the contract records, its balance, the time, and the  *)
(* remote operations it has started (ops, in the order they were started). *)
(* An operation first waits for the remote call (phase "call": the         *)
(* environment decides when it executes and how it ends) and then for the  *)
(* contract's own callback (phase "cb"); both may happen at any time and   *)
(* interleaved with anything else.                                         *)
(*                                                                         *)
(* Ghosts, which nothing the contract does depends on: at (what the        *)
(* lockup really has at the pool), transit (withdrawn from the pool, not   *)
(* arrived yet), confirmed (pools the whitelist confirmed), termTotal (the *)
(* unvested amount fixed by termination), paid (to the foundation's        *)
(* receivers), stuck (a view call failed, see StuckNote).                  *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

RESERVE == "3500000000000000000000000"   \* kept for storage: 3.5 NEAR

(* cfg: [balance, time, sched (a valid schedule that is asked about)] *)
Initial(cfg) ==
  [ cfg |-> cfg, init |-> FALSE, owner |-> "none", wl |-> "none", found |-> "none",
    amount |-> "0", withdrawn |-> "0", dur |-> "0", rel |-> "none", ts |-> "none",
    on |-> FALSE, xts |-> "none", poll |-> "none",
    vest |-> [kind |-> "none"], pool |-> "none", busy |-> FALSE, dep |-> "0",
    bal |-> cfg.balance, now |-> cfg.time, ops |-> <<>>, keys |-> {},
    at |-> "0", transit |-> "0", confirmed |-> {}, termTotal |-> "none", stuck |-> FALSE ]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Ok(s) == Result(s, TRUE, "none", <<>>)

CallEff(to, m, args, dep) == [kind |-> "call", to |-> to, method |-> m, args |-> args, deposit |-> dep]
XferEff(to, amt) == [kind |-> "transfer", to |-> to, amount |-> amt]
NoArgs == <<>>
Self == "lockup.near"

Op(k, amt, to) == [kind |-> k, amt |-> amt, to |-> to, phase |-> "call", good |-> FALSE, val |-> "none"]
(* Start a remote operation: its receipt leaves with the money it carries. *)
Start(s, op, dep, eff) == Result([s EXCEPT !.ops = Append(s.ops, op), !.bal = s.bal -- dep], TRUE, "none", <<eff>>)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(***************************************************************************)
(* Amounts.                                                                *)
(***************************************************************************)
ValidSchedule(c) == c.start \preceq c.cliff /\ c.cliff \preceq c.end /\ c.start \prec c.end
U64SatAdd(a, b) == Min(a ++ b, U64MAX)

(* Unvested under schedule c at time t, out of x tokens. *)
Vesting(c, x, t) ==
  IF t \prec c.cliff THEN x
  ELSE IF c.end \preceq t THEN "0"
  ELSE (x ** (c.end -- t)) // (c.end -- c.start)

Unvested(s, c) ==
  CASE s.vest.kind = "term" -> s.vest.amt
    [] s.vest.kind = "none" -> "0"
    [] OTHER -> Vesting(c, s.amount, s.now)

(* Unvested as far as the contract knows: a hashed schedule is not known. *)
KnownUnvested(s) ==
  CASE s.vest.kind = "term" -> s.vest.amt
    [] s.vest.kind = "schedule" -> Vesting(s.vest.sched, s.amount, s.now)
    [] OTHER -> "0"

ReleaseStart(s) == Max(U64SatAdd(s.xts, s.dur), IF s.ts = "none" THEN "0" ELSE s.ts)
Unreleased(s) ==
  IF s.rel = "none" THEN "0"
  ELSE LET end == U64SatAdd(ReleaseStart(s), s.rel) IN
       IF end \preceq s.now THEN "0" ELSE (s.amount ** (end -- s.now)) // s.rel

Locked(s) ==
  IF s.on /\ ReleaseStart(s) \preceq s.now
  THEN Max(SatSub(Unreleased(s), s.withdrawn), KnownUnvested(s))
  ELSE s.amount -- s.withdrawn

Spendable(s) == SatSub(s.bal, RESERVE)
Balance(s) == s.bal ++ s.dep
OwnersBalance(s) == SatSub(Balance(s), Locked(s))
Liquid(s) == Min(OwnersBalance(s), Spendable(s))

(***************************************************************************)
(* Creation.  a.vesting: [kind "none" | "schedule" | "hash", sched, salt]. *)
(***************************************************************************)
New(s, a) ==
  IF ~(/\ ~s.init /\ a.dep = "0" /\ a.valid
       /\ IF a.vesting.kind = "none" THEN a.found = "none" ELSE a.found # "none"
       /\ a.vesting.kind = "schedule" => ValidSchedule(a.vesting.sched))
  THEN Fail(s)
  ELSE Ok([s EXCEPT !.init = TRUE, !.owner = a.owner, !.wl = a.wl, !.found = a.found,
                    !.amount = s.bal, !.dur = a.dur, !.rel = a.rel, !.ts = a.ts,
                    !.on = a.on, !.xts = IF a.on THEN a.xts ELSE "none",
                    !.poll = IF a.on THEN "none" ELSE a.poll, !.vest = a.vesting])

(***************************************************************************)
(* Who and when.                                                           *)
(***************************************************************************)
ByOwner(s, a) == s.init /\ a.by = s.owner /\ a.dep = "0"
ByFoundation(s, a) == s.init /\ s.found # "none" /\ a.by = s.found /\ a.dep = "0"
Terminating(s) == s.vest.kind = "term"
PoolIdle(s) == s.pool # "none" /\ ~s.busy
Free(s) == ~s.busy        \* no pool, or an idle one
CanUsePool(s, a) == ByOwner(s, a) /\ PoolIdle(s) /\ ~Terminating(s)

(***************************************************************************)
(* The owner.                                                              *)
(***************************************************************************)
Select(s, a) ==
  IF ~(ByOwner(s, a) /\ a.poolValid /\ s.pool = "none" /\ ~Terminating(s)) THEN Fail(s)
  ELSE Start(s, Op("select", "0", a.pool), "0",
             CallEff(s.wl, "is_whitelisted", [staking_pool_account_id |-> a.pool], "0"))

Unselect(s, a) ==
  IF ~(CanUsePool(s, a) /\ s.dep = "0") THEN Fail(s) ELSE Ok([s EXCEPT !.pool = "none"])

(* deposit_to_staking_pool and deposit_and_stake *)
Deposit(s, a, m) ==
  IF ~(CanUsePool(s, a) /\ "0" \prec a.amount /\ a.amount \preceq Spendable(s)) THEN Fail(s)
  ELSE Start([s EXCEPT !.busy = TRUE], Op(m, a.amount, s.pool), a.amount, CallEff(s.pool, m, NoArgs, a.amount))

(* withdraw_from_staking_pool, stake, unstake *)
PoolCall(s, a, m) ==
  IF ~(CanUsePool(s, a) /\ "0" \prec a.amount) THEN Fail(s)
  ELSE Start([s EXCEPT !.busy = TRUE], Op(m, a.amount, s.pool), "0", CallEff(s.pool, m, [amount |-> a.amount], "0"))

UnstakeAll(s, a) ==
  IF ~CanUsePool(s, a) THEN Fail(s)
  ELSE Start([s EXCEPT !.busy = TRUE], Op("unstake_all", "0", s.pool), "0", CallEff(s.pool, "unstake_all", NoArgs, "0"))

Ask(s, k, m) == Start([s EXCEPT !.busy = TRUE], Op(k, "0", s.pool), "0", CallEff(s.pool, m, [account_id |-> Self], "0"))
Refresh(s, a) == IF ~CanUsePool(s, a) THEN Fail(s) ELSE Ask(s, "refresh", "get_account_total_balance")
WithdrawAll(s, a) == IF ~CanUsePool(s, a) THEN Fail(s) ELSE Ask(s, "ask_unstaked", "get_account_unstaked_balance")

CheckVote(s, a) ==
  IF ~(ByOwner(s, a) /\ ~s.on /\ ~Terminating(s)) THEN Fail(s)
  ELSE Start(s, Op("poll", "0", s.poll), "0", CallEff(s.poll, "get_result", NoArgs, "0"))

Transfer(s, a) ==
  IF ~(/\ ByOwner(s, a) /\ "0" \prec a.amount /\ a.receiverValid /\ s.on /\ Free(s) /\ ~Terminating(s)
       /\ a.amount \preceq Liquid(s))
  THEN Fail(s)
  ELSE Start(s, Op("transfer", a.amount, a.receiver), a.amount, XferEff(a.receiver, a.amount))

AddKey(s, a) ==
  IF ~(ByOwner(s, a) /\ a.keyValid /\ s.on /\ Free(s) /\ ~Terminating(s) /\ Locked(s) = "0") THEN Fail(s)
  ELSE Result([s EXCEPT !.keys = s.keys \cup {a.key}], TRUE, "none", <<[kind |-> "add_full_key", to |-> Self, key |-> a.key]>>)

(***************************************************************************)
(* The foundation.  A hashed schedule must be revealed and match.          *)
(***************************************************************************)
Terminate(s, a) ==
  IF ~ByFoundation(s, a) THEN Fail(s)
  ELSE IF ~\/ s.vest.kind = "schedule" /\ ~a.reveal
           \/ s.vest.kind = "hash" /\ a.reveal /\ a.sched = s.vest.sched /\ a.salt = s.vest.salt
  THEN Fail(s)
  ELSE LET u == Vesting(s.vest.sched, s.amount, s.now) IN
       IF u = "0" THEN Fail(s)
       ELSE Ok([s EXCEPT !.vest = [kind |-> "term", amt |-> u,
                                   st |-> IF Spendable(s) \prec u /\ s.pool # "none"
                                          THEN "VestingTerminatedWithDeficit" ELSE "ReadyToWithdraw"],
                         !.termTotal = u])

Prepare(s, a) ==
  IF ~(ByFoundation(s, a) /\ PoolIdle(s) /\ Terminating(s)) THEN Fail(s)
  ELSE IF s.vest.st = "VestingTerminatedWithDeficit"
       THEN Ask([s EXCEPT !.vest.st = "UnstakingInProgress"], "ask_staked_t", "get_account_staked_balance")
  ELSE IF s.vest.st = "EverythingUnstaked"
       THEN Ask([s EXCEPT !.vest.st = "WithdrawingFromStakingPoolInProgress"], "ask_unstaked_t", "get_account_unstaked_balance")
  ELSE Fail(s)

Pay(s, a) ==
  IF ~(ByFoundation(s, a) /\ a.receiverValid /\ Terminating(s)) THEN Fail(s)
  ELSE IF s.vest.st # "ReadyToWithdraw" THEN Fail(s)
  ELSE LET amt == Min(s.vest.amt, Spendable(s)) IN
       IF amt = "0" THEN Fail(s)
       ELSE Start([s EXCEPT !.vest.st = "WithdrawingFromAccountInProgress"],
                  Op("pay", amt, a.receiver), amt, XferEff(a.receiver, amt))

(***************************************************************************)
(* The environment: the remote call of operation a.i executes.             *)
(* a.good: it succeeds, with value a.val.                                  *)
(***************************************************************************)
Carried(op) == IF op.kind \in {"deposit", "deposit_and_stake", "transfer", "pay"} THEN op.amt ELSE "0"
Resolve(s, a) ==
  LET i == ToInt(a.i) IN
  IF ~(i \in DOMAIN s.ops) THEN Fail(s)
  ELSE IF s.ops[i].phase # "call" THEN Fail(s)
  ELSE LET op == s.ops[i]
           s1 == [s EXCEPT !.bal = IF a.good THEN s.bal ELSE s.bal ++ Carried(op),
                           !.at = IF ~a.good THEN s.at
                                  ELSE IF op.kind \in {"deposit", "deposit_and_stake"} THEN s.at ++ op.amt
                                  ELSE IF op.kind \in {"withdraw", "withdraw_t"} THEN SatSub(s.at, op.amt) ELSE s.at,
                           !.transit = IF a.good /\ op.kind \in {"withdraw", "withdraw_t"} THEN s.transit ++ op.amt ELSE s.transit]
       IN Result([s1 EXCEPT !.ops = IF op.kind = "transfer" THEN Without(s.ops, i)
                                    ELSE [s.ops EXCEPT ![i] = [op EXCEPT !.phase = "cb", !.good = a.good, !.val = a.val]]],
                 a.good, "none", <<>>)

(***************************************************************************)
(* The contract's callback of operation a.i.                               *)
(***************************************************************************)
Views == {"refresh", "ask_unstaked", "ask_staked_t", "ask_unstaked_t"}
(* StuckNote: when a view call at the pool fails, its callback fails as well,
   and the contract stays busy (known finding L04-view). *)
Callback(s, a) ==
  LET i == ToInt(a.i) IN
  IF ~(i \in DOMAIN s.ops) THEN Fail(s)
  ELSE IF s.ops[i].phase # "cb" THEN Fail(s)
  ELSE
  LET op == s.ops[i]
      t == [s EXCEPT !.ops = Without(s.ops, i)]
      idle == [t EXCEPT !.busy = FALSE]
      answer(x) == Result(x, TRUE, IF op.good THEN TRUE ELSE FALSE, <<>>)
      next(x, k, m) == Start(x, Op(k, op.val, x.pool), "0", CallEff(x.pool, m, [amount |-> op.val], "0"))
  IN CASE op.kind = "select" ->
            IF op.good /\ op.val = "true" /\ s.pool = "none" /\ ~Terminating(s)
            THEN Result([t EXCEPT !.pool = op.to, !.dep = "0", !.busy = FALSE, !.confirmed = s.confirmed \cup {op.to}],
                        TRUE, TRUE, <<>>)
            ELSE Fail(t)
       [] op.kind \in {"deposit", "deposit_and_stake"} ->
            answer(IF op.good THEN [idle EXCEPT !.dep = s.dep ++ op.amt] ELSE idle)
       [] op.kind = "withdraw" ->
            answer(IF op.good THEN [idle EXCEPT !.dep = SatSub(s.dep, op.amt)] ELSE idle)
       [] op.kind \in {"stake", "unstake", "unstake_all"} -> answer(idle)
       [] op.kind = "poll" ->
            IF ~(op.good /\ ~s.on /\ op.val # "garbage") THEN Fail(t)
            ELSE IF op.val = "none" THEN Result(t, TRUE, FALSE, <<>>)
            ELSE Result([t EXCEPT !.on = TRUE, !.xts = op.val, !.poll = "none"], TRUE, TRUE, <<>>)
       [] op.kind \in Views /\ ~(op.good /\ IsNat(op.val)) -> Fail([t EXCEPT !.stuck = TRUE])
       [] op.kind = "refresh" -> Ok([idle EXCEPT !.dep = op.val])
       [] op.kind = "ask_unstaked" ->
            IF op.val = "0" THEN Result(idle, TRUE, TRUE, <<>>) ELSE next(t, "withdraw", "withdraw")
       [] op.kind = "ask_staked_t" ->
            IF op.val = "0" THEN Result([idle EXCEPT !.vest.st = "EverythingUnstaked"], TRUE, TRUE, <<>>)
            ELSE next(t, "unstake_t", "unstake")
       [] op.kind = "ask_unstaked_t" ->
            IF op.val = "0" THEN Result([idle EXCEPT !.vest.st = "ReadyToWithdraw"], TRUE, TRUE, <<>>)
            ELSE next(t, "withdraw_t", "withdraw")
       [] op.kind = "unstake_t" ->
            answer([idle EXCEPT !.vest.st = IF op.good THEN "EverythingUnstaked" ELSE "VestingTerminatedWithDeficit"])
       [] op.kind = "withdraw_t" ->
            answer(IF op.good THEN [idle EXCEPT !.vest.st = "ReadyToWithdraw", !.dep = SatSub(s.dep, op.amt)]
                   ELSE [idle EXCEPT !.vest.st = "EverythingUnstaked"])
       [] op.kind = "pay" ->
            IF ~op.good THEN answer([t EXCEPT !.vest.st = "ReadyToWithdraw"])
            ELSE IF op.amt \prec s.vest.amt
                 THEN answer([t EXCEPT !.withdrawn = s.withdrawn ++ op.amt,
                                       !.vest = [kind |-> "term", amt |-> s.vest.amt -- op.amt, st |-> "ReadyToWithdraw"]])
                 ELSE answer([t EXCEPT !.withdrawn = s.withdrawn ++ op.amt, !.vest = [kind |-> "none"], !.found = "none"])

(***************************************************************************)
(* The world goes on.                                                      *)
(***************************************************************************)
Time(s, a) == Ok([s EXCEPT !.now = s.now ++ a.d])
Arrive(s, a) == Ok([s EXCEPT !.bal = s.bal ++ s.transit, !.transit = "0"])
Donate(s, a) == Ok([s EXCEPT !.bal = s.bal ++ a.amount])
Reward(s, a) == Ok([s EXCEPT !.at = s.at ++ a.amount])

(* Questions anybody may ask, about any valid schedule; asking changes nothing. *)
CallAsk(s, a) ==
  IF ~s.init THEN Fail(s)
  ELSE CASE a.m = "unvested" -> Result(s, TRUE, Unvested(s, a.sched), <<>>)
         [] a.m = "lockedVested" -> IF Locked(s) \prec Unvested(s, a.sched) THEN Fail(s) ELSE Result(s, TRUE, Locked(s) -- Unvested(s, a.sched), <<>>)

Apply(s, a) ==
  CASE a.act = "new" -> New(s, a)
    [] a.act = "ask" -> CallAsk(s, a)
    [] a.act = "select_staking_pool" -> Select(s, a)
    [] a.act = "unselect_staking_pool" -> Unselect(s, a)
    [] a.act = "deposit_to_staking_pool" -> Deposit(s, a, "deposit")
    [] a.act = "deposit_and_stake" -> Deposit(s, a, "deposit_and_stake")
    [] a.act = "withdraw_from_staking_pool" -> PoolCall(s, a, "withdraw")
    [] a.act = "withdraw_all_from_staking_pool" -> WithdrawAll(s, a)
    [] a.act = "refresh_staking_pool_balance" -> Refresh(s, a)
    [] a.act = "stake" -> PoolCall(s, a, "stake")
    [] a.act = "unstake" -> PoolCall(s, a, "unstake")
    [] a.act = "unstake_all" -> UnstakeAll(s, a)
    [] a.act = "check_transfers_vote" -> CheckVote(s, a)
    [] a.act = "transfer" -> Transfer(s, a)
    [] a.act = "add_full_access_key" -> AddKey(s, a)
    [] a.act = "terminate_vesting" -> Terminate(s, a)
    [] a.act = "termination_prepare_to_withdraw" -> Prepare(s, a)
    [] a.act = "termination_withdraw" -> Pay(s, a)
    [] a.act = "callback" -> Fail(s)          \* somebody calls one of the contract's callbacks
    [] a.act = "env_resolve" -> Resolve(s, a)
    [] a.act = "env_cb" -> Callback(s, a)
    [] a.act = "env_time" -> Time(s, a)
    [] a.act = "env_arrive" -> Arrive(s, a)
    [] a.act = "env_donate" -> Donate(s, a)
    [] a.act = "env_reward" -> Reward(s, a)

(***************************************************************************)
(* Observations: every view method, the balance and the account's keys.    *)
(***************************************************************************)
VestObs(v) ==
  CASE v.kind = "none" -> [kind |-> "none"]
    [] v.kind = "hash" -> [kind |-> "hash", sched |-> v.sched, salt |-> v.salt]
    [] v.kind = "schedule" -> [kind |-> "schedule", sched |-> v.sched]
    [] v.kind = "term" -> [kind |-> "term", amt |-> v.amt, st |-> v.st]
Obs(s) ==
  IF ~s.init THEN [init |-> FALSE, bal |-> s.bal]
  ELSE LET l == Locked(s) u == Unvested(s, s.cfg.sched) IN
  [ init |-> TRUE, bal |-> s.bal, owner |-> s.owner, pool |-> s.pool, dep |-> s.dep,
    status |-> IF Terminating(s) THEN s.vest.st ELSE "none",
    term |-> IF Terminating(s) THEN s.vest.amt ELSE "0",
    deficit |-> IF Terminating(s) THEN SatSub(s.vest.amt, Spendable(s)) ELSE "0",
    locked |-> l, unvested |-> u, lockedVested |-> IF l \prec u THEN "panic" ELSE l -- u,
    vesting |-> VestObs(s.vest), owners |-> OwnersBalance(s), total |-> Balance(s), liquid |-> Liquid(s),
    on |-> s.on, keys |-> s.keys ]

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
PoolOps == {"deposit", "deposit_and_stake", "withdraw", "stake", "unstake", "unstake_all", "refresh", "ask_unstaked",
            "ask_staked_t", "ask_unstaked_t", "unstake_t", "withdraw_t"}
Idx(s, K) == {i \in DOMAIN s.ops : s.ops[i].kind \in K}
InFlight(s) == SumF([i \in DOMAIN s.ops |-> IF s.ops[i].phase = "call" THEN Carried(s.ops[i]) ELSE "0"])

(* L01: what is locked is really there, whatever the owner did (pool faithful: MC alphabets). *)
InvCovered(s) ==
  s.init => Locked(s) \preceq (s.bal ++ s.at ++ s.transit ++ InFlight(s)
                               ++ SumF([i \in DOMAIN s.ops |-> IF s.ops[i].kind = "pay" /\ s.ops[i].phase = "cb" /\ s.ops[i].good
                                                              THEN s.ops[i].amt ELSE "0"]))
StepTransfer(s, a, r) ==
  a.act = "transfer" /\ r.ok =>
    /\ s.on /\ ~Terminating(s) /\ ~s.busy /\ a.by = s.owner
    /\ (Locked(s) ++ a.amount) \preceq Balance(s)
    /\ (RESERVE ++ a.amount) \preceq s.bal
    /\ r.s.bal = s.bal -- a.amount
(* L01/L03: the balance falls only by transfers, deposits to the pool and payments to the foundation. *)
StepOutgo(s, a, r) ==
  r.s.bal \prec s.bal =>
    a.act \in {"transfer", "deposit_to_staking_pool", "deposit_and_stake", "termination_withdraw"} /\ RESERVE \preceq r.s.bal
(* L02 *)
StepTime(s, a, r) == s.init /\ a.act = "env_time" => Locked(r.s) \preceq Locked(s)
InvLocked(s) == s.init => /\ Locked(s) \preceq (s.amount -- s.withdrawn)
                          /\ ~s.on => Locked(s) = s.amount -- s.withdrawn
                          /\ KnownUnvested(s) \preceq Locked(s)
(* L03 *)
InvTermination(s) ==
  s.init => /\ s.termTotal = "none" => s.withdrawn = "0" /\ ~Terminating(s)
            /\ Terminating(s) => s.vest.amt ++ s.withdrawn = s.termTotal /\ "0" \prec s.vest.amt
            /\ s.termTotal # "none" /\ ~Terminating(s) => s.withdrawn = s.termTotal /\ s.found = "none"
StepFrozen(s, a, r) ==
  s.init /\ Terminating(s) /\ r.ok /\ a.act \notin {"ask", "env_time", "env_donate", "env_arrive", "env_reward", "env_resolve", "env_cb"} =>
    a.by = s.found /\ a.act \in {"termination_prepare_to_withdraw", "termination_withdraw"}
(* the process can always go on: either something is in flight, or the foundation's next step is possible *)
InvRetry(s) ==
  s.init /\ Terminating(s) /\ ~s.stuck =>
    CASE s.vest.st = "VestingTerminatedWithDeficit" -> s.pool # "none" /\ (s.busy <=> Idx(s, PoolOps) # {})
      [] s.vest.st \in {"UnstakingInProgress"} -> Idx(s, {"ask_staked_t", "unstake_t"}) # {}
      [] s.vest.st \in {"WithdrawingFromStakingPoolInProgress"} -> Idx(s, {"ask_unstaked_t", "withdraw_t"}) # {}
      [] s.vest.st = "WithdrawingFromAccountInProgress" -> Idx(s, {"pay"}) # {}
      [] OTHER -> TRUE
(* L04 *)
InvOne(s) == s.init => /\ Cardinality(Idx(s, PoolOps)) <= 1
                       /\ ~s.stuck => (s.busy <=> Idx(s, PoolOps) # {})
                       /\ s.busy => s.pool # "none"
                       /\ s.pool = "none" => s.dep = "0" \/ ~s.init
StepBooks(s, a, r) ==
  s.init /\ s.dep # r.s.dep =>
    /\ a.act = "env_cb"
    /\ LET op == s.ops[ToInt(a.i)] IN
       CASE op.kind \in {"deposit", "deposit_and_stake"} -> op.good /\ r.s.dep = s.dep ++ op.amt
         [] op.kind \in {"withdraw", "withdraw_t"} -> op.good /\ r.s.dep = SatSub(s.dep, op.amt)
         [] op.kind = "refresh" -> op.good /\ r.s.dep = op.val
         [] OTHER -> FALSE
(* L05 *)
InvPool(s) == s.init /\ s.pool # "none" => s.pool \in s.confirmed
StepPool(s, a, r) ==
  s.init /\ s.pool # r.s.pool =>
    \/ s.pool = "none" /\ a.act = "env_cb"
    \/ r.s.pool = "none" /\ a.act = "unselect_staking_pool" /\ s.dep = "0" /\ a.by = s.owner
(* L06 *)
StepEnable(s, a, r) ==
  s.init /\ (s.on # r.s.on \/ s.xts # r.s.xts) =>
    /\ ~s.on /\ a.act = "env_cb"
    /\ LET op == s.ops[ToInt(a.i)] IN op.kind = "poll" /\ op.good /\ op.to = s.poll /\ r.s.xts = op.val
(* L07 *)
StepKey(s, a, r) ==
  s.keys # r.s.keys => a.act = "add_full_access_key" /\ a.by = s.owner /\ s.on /\ Locked(s) = "0" /\ ~s.busy /\ ~Terminating(s)
(* L08 *)
FoundationActs == {"terminate_vesting", "termination_prepare_to_withdraw", "termination_withdraw"}
StepRoles(s, a, r) ==
  r.ok /\ a.act \notin {"new", "ask", "env_time", "env_donate", "env_arrive", "env_reward", "env_resolve", "env_cb"} =>
    a.by = IF a.act \in FoundationActs THEN s.found ELSE s.owner

(***************************************************************************)
(* Which properties a divergence concerns.                                 *)
(***************************************************************************)
OwnerPool == {"deposit_to_staking_pool", "deposit_and_stake", "withdraw_from_staking_pool", "withdraw_all_from_staking_pool",
              "refresh_staking_pool_balance", "stake", "unstake", "unstake_all"}
OpOf(st, a) == IF a.act \in {"env_cb", "env_resolve"} /\ ToInt(a.i) \in DOMAIN st.ops THEN st.ops[ToInt(a.i)].kind ELSE "none"
TermOps == {"ask_staked_t", "ask_unstaked_t", "unstake_t", "withdraw_t", "pay"}
Amounts == {"locked", "unvested", "lockedVested"}
(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) ==
  LET some(x) == d \cap x # {}
      op == OpOf(st, a)
      foreign == a.act \notin {"new", "callback", "env_time", "env_donate", "env_arrive", "env_reward", "env_resolve", "env_cb", "ask"}
                 /\ st.init /\ a.by # (IF a.act \in FoundationActs THEN st.found ELSE st.owner)
      b == UNION {
        When(\/ a.act = "transfer"
             \/ some({"liquid", "owners", "total"} \cup Amounts)
             \/ some({"bal"}) /\ op # "pay"
             \/ a.act \in OwnerPool /\ some({"eff"}), {"L01"}),
        When(some(Amounts) \/ a.act = "ask", {"L02"}),
        When(\/ a.act \in FoundationActs
             \/ op \in TermOps
             \/ some({"status", "term", "deficit"})
             \/ some({"vesting"}) /\ a.act # "new"
             \/ st.init /\ Terminating(st) /\ ~r.ok /\ a.act \notin {"callback", "new"}
             \/ st.init /\ st.withdrawn # "0" /\ some(Amounts), {"L03"}),
        When(\/ a.act \in OwnerPool
             \/ op \in PoolOps
             \/ st.init /\ st.busy /\ ~r.ok
             \/ some({"dep", "total"}), {"L04"}),
        When(\/ a.act \in {"select_staking_pool", "unselect_staking_pool"} \/ op = "select"
             \/ some({"pool"})
             \/ a.act \in OwnerPool /\ st.init /\ (st.pool = "none" \/ some({"eff"})), {"L05"}),
        When(\/ a.act = "check_transfers_vote" \/ op = "poll" \/ some({"on"})
             \/ a.act = "transfer" /\ st.init /\ ~st.on, {"L06"}),
        When(a.act = "callback", {"L03", "L04", "L05", "L06"}),
        When(a.act = "add_full_access_key" \/ some({"keys"}), {"L07"}),
        When(\/ foreign \/ (a.act = "new" /\ ~st.init) \/ some({"owner", "init"})
             \/ a.act = "terminate_vesting" /\ some({"ok"})
             \/ a.act = "callback", {"L08"}),
        When(\/ a.act = "callback" \/ (a.act = "new" /\ st.init) \/ (~st.init /\ some({"ok", "init"})), {"C01"}) }
  IN IF b = {} THEN {"L01", "L04"} ELSE b
=============================================================================
