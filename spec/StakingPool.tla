---------------------------- MODULE StakingPool ----------------------------
(***************************************************************************)
(* The delegation staking pool (staking-pool/src).                         *)
(*                                                                         *)
(* The state is the pool's books plus what the chain holds for it: liquid  *)
(* balance, locked (staked) balance, the last accepted stake proposal, and *)
(* the receipts on their way: stake actions, their callbacks, transfers.   *)
(* Each step is one call by some account (with an attached deposit), one   *)
(* receipt being executed (with an outcome the environment picks), or the  *)
(* chain moving on (epochs, rewards, unlocking, donations, slashing).      *)
(* Apply(s, a) is the whole transition function: a failed call changes     *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

GUARANTEE == "1000000000000"     \* set aside at initialisation for rounding
UNLOCK_EPOCHS == "4"

(* cfg: [users (names watched), balance, epoch, locked (what the account already stakes by itself, if anything)] *)
Initial(cfg) ==
  [ users |-> cfg.users, init |-> FALSE, owner |-> "none", key |-> "none", fee |-> [n |-> "0", d |-> "1"],
    total |-> "0", shares |-> "0", lastTotal |-> "0", lastEpoch |-> "0", paused |-> FALSE,
    acc |-> <<>>, epoch |-> cfg.epoch, bal |-> cfg.balance, locked |-> IF "locked" \in DOMAIN cfg THEN cfg.locked ELSE "0", prop |-> "0",
    stakeQ |-> <<>>, cbQ |-> <<>>, xferQ |-> <<>>, slashed |-> FALSE ]

NoAcc == [un |-> "0", sh |-> "0", av |-> "0"]
Acc(s, u) == IF u \in DOMAIN s.acc THEN s.acc[u] ELSE NoAcc
(* an account with nothing left is forgotten *)
PutAcc(s, u, x) ==
  [s EXCEPT !.acc = IF x.un = "0" /\ x.sh = "0"
                    THEN [v \in DOMAIN s.acc \ {u} |-> s.acc[v]]
                    ELSE (u :> x) @@ s.acc]

(* share price = total / shares *)
SharesDown(s, amt) == (s.shares ** amt) // s.total
SharesUp(s, amt)   == DivUp(s.shares ** amt, s.total)
AmountDown(s, n)   == (s.total ** n) // s.shares
AmountUp(s, n)     == DivUp(s.total ** n, s.shares)

Result(s, ok, eff) == [s |-> s, ok |-> ok, ret |-> "none", eff |-> eff]
Fail(s)   == Result(s, FALSE, <<>>)
Ok(s, eff) == Result(s, TRUE, eff)

StakeEff(amt, key) == [kind |-> "stake", amount |-> amt, key |-> key]
XferEff(to, amt) == [kind |-> "transfer", to |-> to, amount |-> amt]

(***************************************************************************)
(* Pieces of a call.  p is a partial result [ok, s, eff]: the first piece  *)
(* that fails makes the call fail.                                         *)
(***************************************************************************)
Begin(s) == [ok |-> TRUE, s |-> s, eff |-> <<>>, new |-> FALSE]
Require(p, c) == [p EXCEPT !.ok = p.ok /\ c]

ToOwnerShares(s, fee) == IF s.shares = "0" THEN "0" ELSE SharesDown(s, fee)

(* Distribute what was earned since the last epoch this was done in: the
   balance beyond the books is reward; the owner's fraction buys the owner
   shares at the price that the rest of the reward has already raised. *)
Ping(p, dep) ==
  LET s == p.s IN
  IF ~p.ok \/ s.lastEpoch = s.epoch THEN p
  ELSE LET now == (s.locked ++ s.bal) -- dep IN
       IF now \prec s.lastTotal THEN [p EXCEPT !.ok = FALSE]
       ELSE LET reward == now -- s.lastTotal
                fee    == (s.fee.n ** reward) // s.fee.d
                s1     == [s EXCEPT !.lastEpoch = s.epoch, !.lastTotal = now,
                                    !.total = s.total ++ (reward -- fee)]
            IN IF reward = "0" THEN [p EXCEPT !.s = s1, !.new = TRUE]
               ELSE IF s1.total = "0" THEN [p EXCEPT !.ok = FALSE]
               ELSE LET n  == SharesDown(s1, fee)
                        o  == Acc(s1, s.owner)
                        s2 == IF n = "0" THEN s1
                              ELSE [PutAcc(s1, s.owner, [o EXCEPT !.sh = o.sh ++ n])
                                      EXCEPT !.shares = s1.shares ++ n]
                    IN [p EXCEPT !.s = [s2 EXCEPT !.total = s2.total ++ fee], !.new = TRUE]

DoDeposit(p, u, dep) ==
  IF ~p.ok THEN p
  ELSE LET x == Acc(p.s, u) IN
       [p EXCEPT !.s = [PutAcc(p.s, u, [x EXCEPT !.un = x.un ++ dep])
                          EXCEPT !.lastTotal = p.s.lastTotal ++ dep]]

DoWithdraw(p, u, amt) ==
  IF ~p.ok THEN p
  ELSE LET x == Acc(p.s, u) IN
       IF ~(/\ "0" \prec amt
            /\ amt \preceq x.un
            /\ x.av \preceq p.s.epoch
            /\ amt \preceq p.s.bal)           \* the chain refuses to promise more than is liquid
       THEN [p EXCEPT !.ok = FALSE]
       ELSE [p EXCEPT !.s = [PutAcc(p.s, u, [x EXCEPT !.un = x.un -- amt])
                               EXCEPT !.lastTotal = p.s.lastTotal -- amt,
                                      !.bal = p.s.bal -- amt,
                                      !.xferQ = Append(p.s.xferQ, amt)],
                      !.eff = Append(p.eff, XferEff(u, amt))]

DoStake(p, u, amt) ==
  IF ~p.ok \/ amt = "0" \/ p.s.total = "0" \/ p.s.shares = "0" THEN [p EXCEPT !.ok = FALSE]
  ELSE LET s == p.s
           x == Acc(s, u)
           n == SharesDown(s, amt)
           charge == AmountDown(s, n)
       IN IF n = "0" \/ charge = "0" \/ ~FitsU128(n) \/ x.un \prec charge THEN [p EXCEPT !.ok = FALSE]
          ELSE [p EXCEPT !.s = [PutAcc(s, u, [x EXCEPT !.un = x.un -- charge, !.sh = x.sh ++ n])
                                  EXCEPT !.total = s.total ++ AmountUp(s, n), !.shares = s.shares ++ n]]

DoUnstake(p, u, amt) ==
  IF ~p.ok \/ amt = "0" \/ p.s.total = "0" \/ p.s.shares = "0" THEN [p EXCEPT !.ok = FALSE]
  ELSE LET s == p.s
           x == Acc(s, u)
           n == SharesUp(s, amt)
       IN IF x.sh \prec n THEN [p EXCEPT !.ok = FALSE]
          ELSE [p EXCEPT !.s = [PutAcc(s, u, [un |-> x.un ++ AmountUp(s, n), sh |-> x.sh -- n,
                                              av |-> s.epoch ++ UNLOCK_EPOCHS])
                                  EXCEPT !.total = s.total -- AmountDown(s, n), !.shares = s.shares -- n]]

Restake(p, when) ==
  IF ~p.ok \/ p.s.paused \/ ~when THEN p
  ELSE [p EXCEPT !.s.stakeQ = Append(p.s.stakeQ, [amt |-> p.s.total, cb |-> TRUE]),
                 !.eff = Append(p.eff, StakeEff(p.s.total, p.s.key))]

StakeNothing(p) ==
  [p EXCEPT !.s.stakeQ = Append(p.s.stakeQ, [amt |-> "0", cb |-> FALSE]),
            !.eff = Append(p.eff, StakeEff("0", p.s.key))]

End(s, p) == IF p.ok THEN Ok(p.s, p.eff) ELSE Fail(s)

(* What a call sees: the deposit has arrived.  If it fails it goes back. *)
Arrive(s, dep) == Begin([s EXCEPT !.bal = s.bal ++ dep])
Unpaid(s, a) == Require(Begin(s), a.dep = "0" /\ s.init)
OwnerOnly(p, a) == Require(p, a.by = p.s.owner)

ValidFee(f) == f.d # "0" /\ f.n \preceq f.d

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
New(s, a) ==
  IF ~(/\ ~s.init /\ a.dep = "0" /\ ValidFee(a.fee) /\ a.ownerValid /\ a.keyValid
       /\ GUARANTEE \preceq s.bal /\ s.locked = "0")
  THEN Fail(s)
  ELSE LET t == s.bal -- GUARANTEE
           s1 == [s EXCEPT !.init = TRUE, !.owner = a.owner, !.key = a.key, !.fee = a.fee,
                           !.total = t, !.shares = t, !.lastTotal = s.bal, !.lastEpoch = s.epoch]
       IN End(s, Restake(Begin(s1), TRUE))

CallPing(s, a) ==
  LET p == Ping(Unpaid(s, a), "0") IN End(s, Restake(p, p.new))

CallDeposit(s, a) ==
  LET p == Ping(Require(Arrive(s, a.dep), s.init), a.dep)
  IN End(s, Restake(DoDeposit(p, a.by, a.dep), p.new))

CallDepositAndStake(s, a) ==
  LET p == Ping(Require(Arrive(s, a.dep), s.init), a.dep)
  IN End(s, Restake(DoStake(DoDeposit(p, a.by, a.dep), a.by, a.dep), TRUE))

CallWithdraw(s, a, all) ==
  LET p == Ping(Unpaid(s, a), "0")
      amt == IF all THEN Acc(p.s, a.by).un ELSE a.amount
  IN End(s, Restake(DoWithdraw(p, a.by, amt), p.new))

CallStake(s, a, all) ==
  LET p == Ping(Unpaid(s, a), "0")
      amt == IF all THEN Acc(p.s, a.by).un ELSE a.amount
  IN End(s, Restake(DoStake(p, a.by, amt), TRUE))

CallUnstake(s, a, all) ==
  LET p == Ping(Unpaid(s, a), "0") IN
  IF ~p.ok \/ p.s.shares = "0" THEN Fail(s)
  ELSE LET amt == IF all THEN AmountDown(p.s, Acc(p.s, a.by).sh) ELSE a.amount
       IN End(s, Restake(DoUnstake(p, a.by, amt), TRUE))

CallUpdateKey(s, a) ==
  LET p == Ping(Require(OwnerOnly(Unpaid(s, a), a), a.keyValid), "0")
  IN End(s, Restake([p EXCEPT !.s.key = IF p.ok THEN a.key ELSE p.s.key], TRUE))

CallUpdateFee(s, a) ==
  LET p == Ping(Require(OwnerOnly(Unpaid(s, a), a), ValidFee(a.fee)), "0")
  IN End(s, Restake([p EXCEPT !.s.fee = IF p.ok THEN a.fee ELSE p.s.fee], p.new))

CallVote(s, a) ==
  LET p == Require(OwnerOnly(Unpaid(s, a), a), a.targetValid) IN
  IF ~p.ok THEN Fail(s)
  ELSE Ok(s, <<[kind |-> "call", to |-> a.target, method |-> "vote", args |-> [is_vote |-> a.vote], deposit |-> "0"]>>)

CallPause(s, a) ==
  LET p == Ping(Require(OwnerOnly(Unpaid(s, a), a), ~s.paused), "0")
  IN IF ~p.ok THEN Fail(s) ELSE End(s, StakeNothing([p EXCEPT !.s.paused = TRUE]))

CallResume(s, a) ==
  LET p == Ping(Require(OwnerOnly(Unpaid(s, a), a), s.paused), "0")
  IN IF ~p.ok THEN Fail(s) ELSE End(s, Restake([p EXCEPT !.s.paused = FALSE], TRUE))

(***************************************************************************)
(* Receipts and the chain.                                                 *)
(***************************************************************************)
(* The oldest pending stake action is executed; the environment may refuse it. *)
StakeAct(s, a) ==
  IF s.stakeQ = <<>> THEN Fail(s)
  ELSE LET q == Head(s.stakeQ)
           s1 == [s EXCEPT !.stakeQ = Tail(s.stakeQ)]
           good == /\ ~a.refuse
                   /\ q.amt \preceq (s.bal ++ s.locked)
                   /\ ~(q.amt = "0" /\ s.locked = "0" /\ s.prop = "0")
           more == SatSub(q.amt, s.locked)
           s2 == IF good THEN [s1 EXCEPT !.bal = s.bal -- more, !.locked = s.locked ++ more, !.prop = q.amt] ELSE s1
       IN Result([s2 EXCEPT !.cbQ = IF q.cb THEN Append(s.cbQ, good) ELSE s.cbQ], good, <<>>)

(* The pool learns how its oldest stake action went: after a failure it unstakes what is locked. *)
StakeCb(s, a) ==
  IF s.cbQ = <<>> THEN Fail(s)
  ELSE LET p == Begin([s EXCEPT !.cbQ = Tail(s.cbQ)]) IN
       IF ~Head(s.cbQ) /\ "0" \prec s.locked THEN End(s, StakeNothing(p)) ELSE End(s, p)

(* The oldest payout arrives, or cannot be delivered and comes back. *)
Xfer(s, a) ==
  IF s.xferQ = <<>> THEN Fail(s)
  ELSE Result([s EXCEPT !.xferQ = Tail(s.xferQ),
                        !.bal = IF a.refuse THEN s.bal ++ Head(s.xferQ) ELSE s.bal], ~a.refuse, <<>>)

(* Time: n epochs pass, the stake earns reward, and unlock of it becomes liquid. *)
Epoch(s, a) ==
  Ok([s EXCEPT !.epoch = s.epoch ++ a.n, !.locked = (s.locked ++ a.reward) -- a.unlock, !.bal = s.bal ++ a.unlock], <<>>)
Donate(s, a) == Ok([s EXCEPT !.bal = s.bal ++ a.amount], <<>>)
Slash(s, a) == Ok([s EXCEPT !.locked = s.locked -- a.amount, !.slashed = TRUE], <<>>)

(* Somebody else calls the pool's internal callback. *)
CallCallback(s, a) == Fail(s)

StakedOf(s, u) == AmountDown(s, Acc(s, u).sh)
AccObs(s, u) == [un |-> Acc(s, u).un, st |-> StakedOf(s, u), can |-> Acc(s, u).av \preceq s.epoch]
(* Questions anybody may ask; asking changes nothing.  "pages" reads the list of accounts to its end, size
   accounts at a time: whatever their order, each is there once. *)
Answers(s, x) == [s |-> s, ok |-> TRUE, ret |-> x, eff |-> <<>>]
CallAsk(s, a) ==
  IF ~s.init \/ (s.shares = "0" /\ a.m \in {"staked", "total"}) THEN Fail(s)
  ELSE CASE a.m = "unstaked" -> Answers(s, Acc(s, a.who).un)
         [] a.m = "staked" -> Answers(s, StakedOf(s, a.who))
         [] a.m = "total" -> Answers(s, Acc(s, a.who).un ++ StakedOf(s, a.who))
         [] a.m = "available" -> Answers(s, Acc(s, a.who).av \preceq s.epoch)
         [] a.m = "pages" ->
              LET n == Cardinality(DOMAIN s.acc) k == ToInt(a.size) IN
              Answers(s, [sizes |-> [i \in 1..(n \div k + 1) |-> Z(IF i * k <= n THEN k ELSE n - (i - 1) * k)],
                          all |-> [u \in DOMAIN s.acc |-> AccObs(s, u)]])

Apply(s, a) ==
  CASE a.act = "new" -> New(s, a)
    [] a.act = "ping" -> CallPing(s, a)
    [] a.act = "deposit" -> CallDeposit(s, a)
    [] a.act = "deposit_and_stake" -> CallDepositAndStake(s, a)
    [] a.act = "withdraw" -> CallWithdraw(s, a, FALSE)
    [] a.act = "withdraw_all" -> CallWithdraw(s, a, TRUE)
    [] a.act = "stake" -> CallStake(s, a, FALSE)
    [] a.act = "stake_all" -> CallStake(s, a, TRUE)
    [] a.act = "unstake" -> CallUnstake(s, a, FALSE)
    [] a.act = "unstake_all" -> CallUnstake(s, a, TRUE)
    [] a.act = "update_staking_key" -> CallUpdateKey(s, a)
    [] a.act = "update_reward_fee_fraction" -> CallUpdateFee(s, a)
    [] a.act = "vote" -> CallVote(s, a)
    [] a.act = "pause_staking" -> CallPause(s, a)
    [] a.act = "resume_staking" -> CallResume(s, a)
    [] a.act = "on_stake_action" -> CallCallback(s, a)
    [] a.act = "env_stake" -> StakeAct(s, a)
    [] a.act = "env_cb" -> StakeCb(s, a)
    [] a.act = "env_xfer" -> Xfer(s, a)
    [] a.act = "env_epoch" -> Epoch(s, a)
    [] a.act = "env_donate" -> Donate(s, a)
    [] a.act = "env_slash" -> Slash(s, a)
    [] a.act = "ask" -> CallAsk(s, a)

(***************************************************************************)
(* What can be observed: the view methods and the account's balances.      *)
(***************************************************************************)
Obs(s) ==
  IF ~s.init THEN [init |-> FALSE, bal |-> s.bal, locked |-> s.locked]
  ELSE IF s.shares = "0" THEN [init |-> TRUE, bal |-> s.bal, locked |-> s.locked]
  ELSE [init |-> TRUE, owner |-> s.owner, key |-> s.key, fee |-> [numerator |-> s.fee.n, denominator |-> s.fee.d],
        paused |-> s.paused, total |-> s.total, n |-> Z(Cardinality(DOMAIN s.acc)),
        acc |-> [u \in {s.users[i] : i \in DOMAIN s.users} |-> AccObs(s, u)],
        list |-> [u \in DOMAIN s.acc |-> AccObs(s, u)],
        bal |-> s.bal, locked |-> s.locked]

(***************************************************************************)
(* The properties.  Inv* are state invariants; Step* relate a state, the   *)
(* action taken and the state after it.                                    *)
(***************************************************************************)
TotalOf(s, u) == IF s.shares = "0" THEN Acc(s, u).un ELSE Acc(s, u).un ++ StakedOf(s, u)
Owed(s) == SumF([u \in DOMAIN s.acc |-> TotalOf(s, u)])
UnstakedSum(s) == SumF([u \in DOMAIN s.acc |-> s.acc[u].un])

(* P01: what the pool holds covers what it owes everybody, and its books balance. *)
InvSolvent(s) ==
  s.init /\ ~s.slashed => /\ Owed(s) \preceq (s.bal ++ s.locked)
            /\ (UnstakedSum(s) ++ s.total) \preceq (s.bal ++ s.locked)
            /\ SumF([u \in DOMAIN s.acc |-> s.acc[u].sh]) \preceq s.shares
(* P01: nobody's total balance is lowered by anything except the payout they asked for. *)
StepNoTheft(s, a, r) ==
  s.init /\ s.shares # "0" =>
    \A u \in DOMAIN s.acc :
      LET paid == IF r.ok /\ a.act \in {"withdraw", "withdraw_all"} /\ a.by = u THEN s.bal -- r.s.bal ELSE "0"
      IN TotalOf(s, u) \preceq (TotalOf(r.s, u) ++ paid)
(* P01: a call changes its caller's accounts by exactly what it is about; a failed one changes nothing. *)
StepExact(s, a, r) ==
  s.init /\ s.shares # "0" /\ a.act \in {"deposit", "deposit_and_stake", "withdraw", "withdraw_all", "stake", "stake_all", "unstake", "unstake_all", "ping"} =>
    IF ~r.ok THEN r.s = s
    ELSE LET p == Ping(Begin(s), "0").s    \* what the new epoch, if any, did first
             x == Acc(p, a.by) y == Acc(r.s, a.by)
             others == \A u \in (DOMAIN p.acc \cup DOMAIN r.s.acc) \ {a.by} : Acc(p, u) = Acc(r.s, u)
         IN /\ others
            /\ a.act = "deposit" => y = [x EXCEPT !.un = x.un ++ a.dep] /\ r.s.bal = s.bal ++ a.dep
            /\ a.act = "withdraw" => y.un = x.un -- a.amount /\ y.sh = x.sh /\ r.s.bal = s.bal -- a.amount
            /\ a.act = "withdraw_all" => y.un = "0" /\ y.sh = x.sh /\ r.s.bal = s.bal -- x.un
            /\ a.act \in {"stake", "stake_all"} => y.un \prec x.un /\ x.sh \prec y.sh /\ r.s.bal = s.bal /\ y.av = x.av
            /\ a.act \in {"unstake", "unstake_all"} => x.un \prec y.un /\ y.sh \prec x.sh /\ r.s.bal = s.bal
            /\ a.act = "ping" => y = x
(* P02: stakers are charged at most what they asked and can unstake it at once; unstakers get at least what they asked. *)
StepRounding(s, a, r) ==
  s.init /\ s.shares # "0" /\ r.ok =>
    LET p == Ping(Begin(s), "0").s
        x == Acc(p, a.by) y == Acc(r.s, a.by)
        asked == IF a.act = "deposit_and_stake" THEN a.dep ELSE IF a.act = "stake" THEN a.amount ELSE x.un
        charge == (IF a.act = "deposit_and_stake" THEN x.un ++ a.dep ELSE x.un) -- y.un
    IN /\ a.act \in {"stake", "stake_all", "deposit_and_stake"} =>
            /\ charge \preceq asked
            /\ LET b == Apply(r.s, [act |-> "unstake", by |-> a.by, dep |-> "0", amount |-> charge])
               IN b.ok /\ charge \preceq (Acc(b.s, a.by).un -- y.un)
       /\ a.act = "unstake" => a.amount \preceq (y.un -- x.un)
       /\ a.act = "unstake_all" => AmountDown(p, x.sh) \preceq (y.un -- x.un)
(* P02: the share price is at least 1 and never falls. *)
InvPrice(s) == s.init => s.shares \preceq s.total
StepPrice(s, a, r) == s.init => (s.total ** r.s.shares) \preceq (r.s.total ** s.shares)
(* P03: rewards appear only with a new epoch, and the owner's cut of them is at most the fraction. *)
StepReward(s, a, r) ==
  s.init /\ s.shares # "0" /\ s.owner \in DOMAIN s.acc /\ a.act = "ping" /\ r.ok /\ ~s.slashed =>
    LET rew == SatSub(s.bal ++ s.locked, s.lastTotal) IN
    IF s.lastEpoch = s.epoch THEN r.s = s
    ELSE /\ r.s.total = s.total ++ rew
         /\ r.s.lastTotal = s.bal ++ s.locked
         \* the owner's fraction, as stake at the price that the others' rewards have raised; nobody else's accounts change
         /\ LET fee == (rew ** s.fee.n) // s.fee.d
                got == Acc(r.s, s.owner).sh -- Acc(s, s.owner).sh
            IN /\ (got ** (s.total ++ (rew -- fee))) \preceq (fee ** s.shares)
               /\ (fee ** s.shares) \prec ((got ++ "1") ** (s.total ++ (rew -- fee)))
               /\ \A u \in DOMAIN s.acc \ {s.owner} : r.s.acc[u] = s.acc[u]
               /\ Acc(r.s, s.owner).un = Acc(s, s.owner).un
(* P04: unstaked funds leave only through withdraw, and not before the epoch they were promised for. *)
StepUnlock(s, a, r) ==
  s.init => \A u \in DOMAIN s.acc :
    LET x == s.acc[u] y == Acc(r.s, u) IN
    /\ (r.ok /\ a.act \in {"withdraw", "withdraw_all"} /\ a.by = u => x.av \preceq s.epoch)
    /\ (y.sh \prec x.sh => y.av = s.epoch ++ UNLOCK_EPOCHS)
(* P04: nobody is kept: after four epochs, and once what was sent off is carried out, everybody who unstakes everything
   gets all of it paid, one after the other, whatever state the pool is in. *)
RECURSIVE Done(_), AllDo(_, _, _)
Done(s) == IF s.stakeQ # <<>> THEN Done(StakeAct(s, [refuse |-> FALSE]).s)
           ELSE IF s.cbQ # <<>> THEN Done(StakeCb(s, [act |-> "env_cb"]).s)
           ELSE IF s.xferQ # <<>> THEN Done(Xfer(s, [refuse |-> FALSE]).s) ELSE s
AllDo(s, m, U) == IF U = {} THEN s ELSE LET u == CHOOSE u \in U : TRUE IN AllDo(Done(Apply(s, [act |-> m, by |-> u, dep |-> "0"]).s), m, U \ {u})
InvExit(s) ==
  s.init /\ s.shares # "0" /\ ~s.slashed =>
    LET t == AllDo(Done(s), "unstake_all", DOMAIN s.acc)
        e == Apply(t, [act |-> "env_epoch", n |-> UNLOCK_EPOCHS, reward |-> "0", unlock |-> SatSub(t.locked, t.prop)]).s
        w == AllDo(e, "withdraw_all", DOMAIN e.acc)
    IN \A u \in DOMAIN s.acc : Acc(w, u).un = "0" /\ StakedOf(t, u) = "0"
(* P05: only the owner changes the configuration; the fee is a fraction in [0,1]. *)
StepAuthority(s, a, r) ==
  s.init /\ (r.s.key # s.key \/ r.s.fee # s.fee \/ r.s.paused # s.paused \/ r.s.owner # s.owner)
     => a.by = s.owner /\ r.s.owner = s.owner
InvFee(s) == s.init => ValidFee(s.fee)
(* P06: a failed stake action is answered by staking nothing if anything is locked, a successful one by nothing. *)
StepAnswer(s, a, r) ==
  a.act = "env_cb" /\ s.cbQ # <<>> =>
    Len(r.s.stakeQ) = Len(s.stakeQ) + (IF Head(s.cbQ) \/ s.locked = "0" THEN 0 ELSE 1)
(* P06: while staking is on, the newest stake action asks for the whole stake, unless a failed one
   made the pool retreat; while it is paused, the newest asks for nothing. *)
StepStake(s, a, r) ==
  r.ok /\ r.s.init /\ Len(r.s.stakeQ) > Len(s.stakeQ) =>
    LET q == r.s.stakeQ[Len(r.s.stakeQ)] IN
    q.amt = (IF r.s.paused \/ a.act = "env_cb" THEN "0" ELSE r.s.total)

(***************************************************************************)
(* Which properties a divergence d between the code and this specification *)
(* concerns, when the code performs a in state st (expected outcome r).    *)
(***************************************************************************)
Money == {"deposit", "deposit_and_stake", "withdraw", "withdraw_all", "stake", "stake_all", "unstake", "unstake_all", "ping"}
Conf == {"update_staking_key", "update_reward_fee_fraction", "vote", "pause_staking", "resume_staking"}
Books == {"acc", "list", "total", "n"}
NewEpoch(st) == st.init /\ st.lastEpoch # st.epoch
(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) ==
  LET some(x) == d \cap x # {}
      money == a.act \in Money
      b == UNION {
        When(\/ some({"bal"})
             \/ money /\ some({"ok"} \cup Books)
             \/ some({"eff"}) /\ a.act \in {"withdraw", "withdraw_all"}
             \/ a.act = "ask", {"P01"}),
        When(a.act = "ask" /\ a.m \in {"staked", "total", "pages"}, {"P02"}),
        When(a.act = "ask" /\ a.m \in {"available", "pages"}, {"P04"}),
        When((money \/ a.act = "new") /\ some({"ok"} \cup Books), {"P02"}),
        When(a.act \in Conf /\ some(Books), {"P01", "P02"}),
        When(\/ some({"total"})
             \/ a.act \in {"ping"} \cup Conf /\ some(Books), {"P03"}),
        When(\/ NewEpoch(st) /\ a.act \in Money \cup Conf /\ some({"ok"} \cup Books)
             \/ a.act = "env_epoch" /\ some(Books), {"P03"}),
        When(\/ a.act \in {"withdraw", "withdraw_all", "unstake", "unstake_all", "env_epoch"} /\ some({"ok", "eff", "acc", "list"})
             \/ money /\ some({"acc", "list"}), {"P04"}),
        When(\/ a.act \in Conf \cup {"new", "on_stake_action"}
             \/ some({"owner", "key", "fee", "paused", "init"})
             \/ money /\ (~st.init \/ (~r.ok /\ a.dep # "0")), {"P05"}),
        When(\/ some({"locked"})
             \/ a.act \in {"env_stake", "env_cb", "on_stake_action", "pause_staking", "resume_staking", "update_staking_key"}
             \/ some({"eff"}) /\ a.act # "vote", {"P06"}),
        When(a.act \in {"new", "on_stake_action"} \/ (~st.init /\ some({"ok", "init"})), {"C01"}) }
  IN IF b = {} THEN {"P01"} ELSE b
=============================================================================
