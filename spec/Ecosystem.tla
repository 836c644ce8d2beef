----------------------------- MODULE Ecosystem -----------------------------
(***************************************************************************)
(* A lockup whose tokens are delegated to a staking pool of this           *)
(* repository, with its whitelist and with the voting contract as the      *)
(* transfer poll: the four specifications, instantiated and connected.     *)
(* Here no remote call is answered by an environment: it is executed by    *)
(* the contract it is sent to, whenever the environment lets it.           *)
(*                                                                         *)
(* dest: whom the pool's pending payouts (p.xferQ) are for, in order;      *)
(* votes: what the pool has been told to vote, on its way to the poll.     *)
(* The ghost l.at of the lockup is what the pool really owes it.           *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

L == INSTANCE Lockup
P == INSTANCE StakingPool
W == INSTANCE Whitelist
V == INSTANCE Voting

LOCK == "lockup.near"
POOL == "pool.near"
Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)

(* cfg: [lockup, terms (how the lockup is made), pool, make (how the pool is made), stakes (for the poll)] *)
Sync(s) == [s EXCEPT !.l.at = P!TotalOf(s.p, LOCK)]
Initial(cfg) ==
  LET p1 == P!Apply(P!Initial(cfg.pool), cfg.make).s
      p2 == P!Apply(P!Apply(p1, [act |-> "env_stake", refuse |-> FALSE]).s, [act |-> "env_cb"]).s
      w1 == W!Apply(W!Initial([univ |-> <<POOL, "pool2.near">>]), [act |-> "new", by |-> "found.near", dep |-> "0", id |-> "found.near"]).s
      w2 == W!Apply(w1, [act |-> "add_staking_pool", by |-> "found.near", dep |-> "0", id |-> POOL]).s
      v1 == V!Apply(V!Initial([time |-> cfg.lockup.time, epoch |-> cfg.pool.epoch, stakes |-> cfg.stakes]), [act |-> "new", by |-> "found.near", dep |-> "0"]).s
  IN [l |-> L!Apply(L!Initial(cfg.lockup), cfg.terms).s, p |-> p2, w |-> w2, v |-> v1, dest |-> <<>>, votes |-> <<>>]

(* Whom a call to the pool makes it pay. *)
PoolStep(s, a) ==
  LET r == P!Apply(s.p, a) IN
  [s |-> Sync([s EXCEPT !.p = r.s, !.dest = IF Len(r.s.xferQ) > Len(s.p.xferQ) THEN Append(s.dest, a.by) ELSE s.dest]), ok |-> r.ok, eff |-> r.eff, ret |-> r.ret]

Call(m, op) ==
  [act |-> m, by |-> LOCK] @@ (IF m \in {"deposit", "deposit_and_stake"} THEN [dep |-> op.amt]
                              ELSE IF m \in {"withdraw", "stake", "unstake"} THEN [dep |-> "0", amount |-> op.amt] ELSE [dep |-> "0"])
Method(k) == CASE k = "withdraw_t" -> "withdraw" [] k = "unstake_t" -> "unstake" [] OTHER -> k

(* The remote call of the lockup's operation a.i is executed. *)
Remote(s, a) ==
  LET i == ToInt(a.i) IN
  IF ~(i \in DOMAIN s.l.ops) THEN Fail(s)
  ELSE IF s.l.ops[i].phase # "call" THEN Fail(s)
  ELSE LET op == s.l.ops[i]
           heard(x, good, val) == LET r == L!Apply(x.l, [act |-> "env_resolve", i |-> a.i, good |-> good, val |-> val])
                                  IN Sync([x EXCEPT !.l = r.s])
           says(val) == Result(heard(s, TRUE, val), TRUE, "none", <<>>)
       IN CASE op.kind = "select" -> says(IF op.to \in s.w.pools THEN "true" ELSE "false")
            [] op.kind = "poll" -> says(s.v.result)
            [] op.kind = "refresh" -> says(P!TotalOf(s.p, LOCK))
            [] op.kind \in {"ask_unstaked", "ask_unstaked_t"} -> says(P!Acc(s.p, LOCK).un)
            [] op.kind = "ask_staked_t" -> says(P!StakedOf(s.p, LOCK))
            [] op.kind \in {"transfer", "pay"} -> Result(heard(s, a.good, "none"), a.good, "none", <<>>)
            [] OTHER -> LET r == PoolStep(s, Call(Method(op.kind), op))
                        IN Result(heard(r.s, r.ok, "none"), r.ok, "none", r.eff)

OnLockup(s, a) == LET r == L!Apply(s.l, a) IN Result(Sync([s EXCEPT !.l = r.s]), r.ok, r.ret, r.eff)
Heard(s, a) == IF ToInt(a.i) \in DOMAIN s.l.ops THEN OnLockup(s, [act |-> "env_cb", i |-> a.i]) ELSE Fail(s)
OnPool(s, a) ==
  LET r == PoolStep(s, a) IN Result(IF a.act = "vote" /\ r.ok THEN [r.s EXCEPT !.votes = Append(r.s.votes, a.vote)] ELSE r.s, r.ok, r.ret, r.eff)
OnWhitelist(s, a) == LET r == W!Apply(s.w, a) IN Result([s EXCEPT !.w = r.s], r.ok, r.ret, r.eff)
OnPoll(s, a) == LET r == V!Apply(s.v, a) IN Result([s EXCEPT !.v = r.s], r.ok, r.ret, r.eff)

(* The pool's oldest vote arrives at the poll: it is the pool's, a validator's. *)
Arrive(s) ==
  IF s.votes = <<>> THEN Fail(s)
  ELSE LET r == V!Apply(s.v, [act |-> "vote", by |-> POOL, dep |-> "0", yes |-> Head(s.votes)])
       IN Result([s EXCEPT !.v = r.s, !.votes = Tail(s.votes)], r.ok, "none", r.eff)

(* The pool's oldest payout arrives; the lockup cannot refuse it. *)
Payout(s, a) ==
  IF s.dest = <<>> THEN Fail(s)
  ELSE LET to == Head(s.dest)
           bad == a.refuse /\ to # LOCK
           amt == Head(s.p.xferQ)
           r == P!Apply(s.p, [act |-> "env_xfer", refuse |-> bad])
           s1 == [s EXCEPT !.p = r.s, !.dest = Tail(s.dest)]
       IN Result(IF to = LOCK THEN [s1 EXCEPT !.l.bal = s.l.bal ++ amt, !.l.transit = s.l.transit -- amt] ELSE s1, r.ok, "none", <<>>)

Epoch(s, a) ==
  LET p == P!Apply(s.p, [act |-> "env_epoch", n |-> a.n, reward |-> a.reward, unlock |-> a.unlock]).s
      v == V!Apply(s.v, [act |-> "env_epoch", n |-> a.n, stakes |-> [s.v.stakes EXCEPT ![POOL] = p.locked]]).s   \* what it has staked is what it votes with
  IN Result(Sync([s EXCEPT !.p = p, !.v = v]), TRUE, "none", <<>>)
Time(s, a) ==
  Result([s EXCEPT !.l = L!Apply(s.l, a).s, !.v = V!Apply(s.v, a).s], TRUE, "none", <<>>)

Apply(s, a) ==
  CASE a.act = "lockup" -> OnLockup(s, a.a)
    [] a.act = "pool" -> OnPool(s, a.a)
    [] a.act = "whitelist" -> OnWhitelist(s, a.a)
    [] a.act = "poll" -> OnPoll(s, a.a)
    [] a.act = "env_remote" -> Remote(s, a)
    [] a.act = "env_cb" -> Heard(s, a)
    [] a.act = "env_stake" -> OnPool(s, a)
    [] a.act = "env_pool_cb" -> OnPool(s, [act |-> "env_cb"])
    [] a.act = "env_xfer" -> Payout(s, a)
    [] a.act = "env_vote" -> Arrive(s)
    [] a.act = "env_epoch" -> Epoch(s, a)
    [] a.act = "env_time" -> Time(s, a)

Obs(s) == [lockup |-> L!Obs(s.l), pool |-> P!Obs(s.p), white |-> {x \in {POOL, "pool2.near"} : x \in s.w.pools},
           result |-> s.v.result, voted |-> V!Obs(s.v).voted, votes |-> s.v.votes]

(***************************************************************************)
(* E01.                                                                    *)
(***************************************************************************)
(* What is locked is there: on the account, at the pool, or on its way. *)
InvCovered(s) == L!InvCovered(s.l)
(* The lockup never believes in more than the pool owes it: what it is yet to hear of apart. *)
Paid(s) == SumF([i \in L!Idx(s.l, {"withdraw", "withdraw_t"}) |-> IF s.l.ops[i].phase = "cb" /\ s.l.ops[i].good THEN s.l.ops[i].amt ELSE "0"])
InvKnown(s) == s.l.dep \preceq (P!TotalOf(s.p, LOCK) ++ Paid(s))
(* The pool stays solvent, whatever the lockup does. *)
InvPool(s) == P!InvSolvent(s.p) /\ P!InvPrice(s.p)
InvTransit(s) == s.l.transit = SumF([i \in {j \in DOMAIN s.dest : s.dest[j] = LOCK} |-> s.p.xferQ[i]]) /\ Len(s.dest) = Len(s.p.xferQ)
(* Transfers are enabled by the poll's result and nothing else. *)
InvVoted(s) == s.l.cfg.poll => (s.l.on => s.v.result # "none" /\ s.l.xts = s.v.result)
(* Validators vote for themselves: the pool through its owner. *)
StepVoted(s, a, r) ==
  V!Get(s.v.votes, POOL, "0") = "0" /\ V!Get(r.s.v.votes, POOL, "0") # "0" =>
     (a.act = "env_vote" /\ Head(s.votes)) \/ (a.act = "poll" /\ a.a.by = POOL)
StepTold(s, a, r) == Len(r.s.votes) > Len(s.votes) => a.act = "pool" /\ a.a.by = s.p.owner
(* Nobody's delegated tokens shrink except by what is paid to them (P01 in this world). *)
Inner(a) == IF a.act = "pool" THEN a.a ELSE a
StepOthers(s, a, r) ==
  \A u \in DOMAIN s.p.acc : u # LOCK /\ ~(a.act = "pool" /\ a.a.by = u) => P!TotalOf(s.p, u) \preceq P!TotalOf(r.s.p, u)
StepOwn(s, a, r) ==
  P!TotalOf(r.s.p, LOCK) \prec P!TotalOf(s.p, LOCK) =>
     /\ a.act = "env_remote" /\ (s.l.transit ++ P!TotalOf(s.p, LOCK)) \preceq (r.s.l.transit ++ P!TotalOf(r.s.p, LOCK))   \* a ping may bring rewards
     /\ Len(r.s.dest) > Len(s.dest) /\ r.s.dest[Len(r.s.dest)] = LOCK

(* Nothing is ever stranded: from here, with the calls below and if what was sent off is carried out, the owner
   (or, after termination, the foundation) gets everything out of the pool, and the pool can be unselected. *)
RECURSIVE Settle(_, _)
Settle(s, n) ==
  IF n = 0 THEN s
  ELSE IF s.p.stakeQ # <<>> THEN Settle(Apply(s, [act |-> "env_stake", refuse |-> FALSE]).s, n - 1)
  ELSE IF s.p.cbQ # <<>> THEN Settle(Apply(s, [act |-> "env_pool_cb"]).s, n - 1)
  ELSE IF s.dest # <<>> THEN Settle(Apply(s, [act |-> "env_xfer", refuse |-> FALSE]).s, n - 1)
  ELSE IF s.l.ops # <<>> THEN Settle(Apply(s, IF s.l.ops[1].phase = "call" THEN [act |-> "env_remote", i |-> "1", good |-> TRUE] ELSE [act |-> "env_cb", i |-> "1"]).s, n - 1)
  ELSE s
Do(s, m, u) == Settle(Apply(s, [act |-> "lockup", a |-> [act |-> m, by |-> u, dep |-> "0"]]).s, 12)
Unlocked(s) == Apply(s, [act |-> "env_epoch", n |-> "4", reward |-> "0", unlock |-> SatSub(s.p.locked, s.p.prop)]).s
OwnerOut(s) ==
  LET t0 == IF s.l.pool # "none" THEN s         \* rewards may have stayed behind when the pool was unselected
            ELSE Settle(Apply(s, [act |-> "lockup", a |-> [act |-> "select_staking_pool", by |-> s.l.owner, dep |-> "0", pool |-> POOL, poolValid |-> TRUE]]).s, 12)
      t1 == Do(t0, "unstake_all", s.l.owner)
      t2 == Do(Unlocked(t1), "withdraw_all_from_staking_pool", s.l.owner)
      t3 == Do(t2, "unselect_staking_pool", s.l.owner)
  IN POOL \in s.w.pools \/ s.l.pool # "none" => P!TotalOf(t3.p, LOCK) = "0" /\ t3.l.pool = "none" /\ t3.l.dep = "0"
FoundationOut(s) ==
  LET step(t) == IF ~L!Terminating(t.l) THEN t
                 ELSE IF t.l.vest.st = "ReadyToWithdraw"
                 THEN Settle(Apply(t, [act |-> "lockup", a |-> [act |-> "termination_withdraw", by |-> s.l.found, dep |-> "0", receiver |-> "treasury.near", receiverValid |-> TRUE]]).s, 12)
                 ELSE Unlocked(Do(t, "termination_prepare_to_withdraw", s.l.found))
      t == step(step(step(step(s))))
  IN \/ t.l.vest.kind = "none" /\ t.l.withdrawn = s.l.termTotal
     \* or there was less than that beyond the storage reserve: then all of it (rewards yet to be distributed apart)
     \/ /\ L!Spendable(t.l) = "0" /\ t.l.vest.st = "ReadyToWithdraw"
        /\ s.l.vest.st = "VestingTerminatedWithDeficit" =>
             Min(s.l.vest.amt, SatSub(s.l.bal ++ P!TotalOf(s.p, LOCK), L!RESERVE)) \preceq (t.l.withdrawn -- s.l.withdrawn)
InvOut(s) ==
  LET t == Settle(s, 30) IN IF L!Terminating(t.l) THEN FoundationOut(t) ELSE OwnerOut(t)

EffOrdered == FALSE
Blame(st, a, d, r) == {"E01"}
=============================================================================
