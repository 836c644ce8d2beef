------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* How the contracts come to be and find each other: the staking pool      *)
(* factory with its whitelist and pools, the lockup factory with its       *)
(* lockups, and a multisig wallet that owns one of these lockups.  The     *)
(* specifications are instantiated and connected; every call that one of   *)
(* these contracts makes to another is executed by that other contract,    *)
(* whenever the environment lets it.                                       *)
(*                                                                         *)
(* f, k, m: the pool factory (with whitelist and pools), the lockup        *)
(* factory (with lockups) and the wallet.  dest: whom each pool's payouts  *)
(* on their way are for.  Ghosts: net (tokens brought in less those taken  *)
(* out), hand (pools the foundation whitelisted itself), asked (whether    *)
(* the wallet has ever sent the lockup a call).                            *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

F == INSTANCE PoolFactory
K == INSTANCE LockupFactory
M == INSTANCE Multisig
L == INSTANCE Lockup
P == INSTANCE StakingPool

WALLET == "msig.near"
FOUND == "found.near"
Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

Lid(s) == K!LockupId(s.k, WALLET)            \* the wallet's lockup
Has(s) == Lid(s) \in DOMAIN s.k.locks
Lk(s) == s.k.locks[Lid(s)]
Pools(s) == DOMAIN s.f.pools
AtPools(s) == SumF([x \in Pools(s) |-> P!TotalOf(s.f.pools[x], Lid(s))])
Sync(s) == IF Has(s) THEN [s EXCEPT !.k.locks[Lid(s)].at = AtPools(s)] ELSE s

(* What all of these accounts hold, or have sent off and may get back. *)
DepOf(o) == IF o.kind \in {"create", "refund"} THEN o.dep ELSE "0"
Over(q, g(_)) == SumF([i \in DOMAIN q |-> g(q[i])])
Out(o) == o.out
OpAmt(o) == IF o.phase = "call" THEN L!Carried(o) ELSE "0"
Id1(x) == x
Held(s) ==
  (s.f.bal ++ s.k.bal ++ s.m.bal)
  ++ SumF([x \in Pools(s) |-> (s.f.pools[x].bal ++ s.f.pools[x].locked) ++ Over(s.f.pools[x].xferQ, Id1)])
  ++ SumF([x \in DOMAIN s.k.locks |-> s.k.locks[x].bal ++ Over(s.k.locks[x].ops, OpAmt)])
  ++ Over(s.f.ops, DepOf) ++ Over(s.k.ops, DepOf) ++ Over(s.m.ops, Out)

(***************************************************************************)
(* Calls by people.                                                        *)
(***************************************************************************)
In(s, x) == [s EXCEPT !.net = s.net ++ x]
Gone(s, x) == [s EXCEPT !.net = s.net -- x]
CreatePool(s, a) == LET r == F!Apply(s.f, [a EXCEPT !.act = "create_staking_pool"])
                    IN Result(In([s EXCEPT !.f = r.s], IF r.ok THEN a.dep ELSE "0"), r.ok, r.ret, r.eff)
CreateLockup(s, a) == LET r == K!Apply(s.k, [a EXCEPT !.act = "create"])
                      IN Result(In([s EXCEPT !.k = r.s], IF r.ok THEN a.dep ELSE "0"), r.ok, r.ret, r.eff)
OnWhitelist(s, a) == LET r == F!Apply(s.f, a) IN
  Result([s EXCEPT !.f = r.s, !.hand = IF r.ok /\ a.m = "add_staking_pool" THEN s.hand \cup {a.id} ELSE s.hand], r.ok, r.ret, r.eff)
OnWallet(s, a) == LET r == M!Apply(s.m, a.a) IN Result([s EXCEPT !.m = r.s], r.ok, r.ret, r.eff)
OnLockup(s, a) == IF ~Has(s) THEN Fail(s) ELSE
                  LET r == L!Apply(Lk(s), a) IN Result(Sync([s EXCEPT !.k.locks[Lid(s)] = r.s]), r.ok, r.ret, r.eff)
PoolStep(s, x, a) ==
  LET p == s.f.pools[x] r == P!Apply(p, a) IN
  [s |-> Sync([s EXCEPT !.f.pools[x] = r.s,
                        !.dest = IF Len(r.s.xferQ) > Len(p.xferQ) THEN (x :> Append(Get(s.dest, x, <<>>), a.by)) @@ s.dest ELSE s.dest]),
   ok |-> r.ok, ret |-> r.ret, eff |-> r.eff]
OnPool(s, a) ==
  IF a.p \notin Pools(s) THEN Fail(s)
  ELSE LET r == PoolStep(s, a.p, a.a)
       IN Result(IF r.ok /\ a.a.act \in {"deposit", "deposit_and_stake"} THEN In(r.s, a.a.dep) ELSE r.s, r.ok, r.ret, r.eff)

(***************************************************************************)
(* What the factories sent off.                                            *)
(***************************************************************************)
ExecF(s, a) ==
  LET r == F!Apply(s.f, [act |-> "env_exec", i |-> a.i, good |-> a.good])
      i == ToInt(a.i)
      t == [s EXCEPT !.f = r.s]
  IN Result(IF i \in DOMAIN s.f.ops /\ s.f.ops[i].kind = "refund" THEN Gone(t, s.f.ops[i].dep) ELSE t, r.ok, r.ret, r.eff)
ExecK(s, a) ==
  LET r == K!Apply(s.k, [act |-> "env_exec", i |-> a.i, good |-> a.good])
      i == ToInt(a.i)
      t == [s EXCEPT !.k = r.s]
  IN Result(IF i \in DOMAIN s.k.ops /\ s.k.ops[i].kind = "refund" THEN Gone(t, s.k.ops[i].dep) ELSE t, r.ok, r.ret, r.eff)

(***************************************************************************)
(* What the wallet sent off: a batch is carried out as a whole or not.     *)
(***************************************************************************)
LArgs(e) ==
  CASE e.method = "select_staking_pool" -> [pool |-> e.args.staking_pool_account_id, poolValid |-> TRUE]
    [] e.method = "transfer" -> [amount |-> e.args.amount, receiver |-> e.args.receiver_id, receiverValid |-> TRUE]
    [] e.method \in {"deposit_to_staking_pool", "deposit_and_stake", "withdraw_from_staking_pool", "stake", "unstake"} -> [amount |-> e.args.amount]
    [] OTHER -> <<>>
OwnerMethods == {"select_staking_pool", "unselect_staking_pool", "deposit_to_staking_pool", "deposit_and_stake", "withdraw_from_staking_pool",
                 "withdraw_all_from_staking_pool", "stake", "unstake", "unstake_all", "refresh_staking_pool_balance", "transfer"}
RECURSIVE OnLockupAll(_, _, _, _)
OnLockupAll(l, q, i, eff) ==
  IF i > Len(q) THEN [ok |-> TRUE, l |-> l, eff |-> eff]
  ELSE LET e == q[i] IN
       IF e.kind = "transfer" THEN OnLockupAll([l EXCEPT !.bal = l.bal ++ e.amount], q, i + 1, eff)
       ELSE IF e.kind # "call" THEN [ok |-> FALSE, l |-> l, eff |-> <<>>]
       ELSE IF e.method \notin OwnerMethods THEN [ok |-> FALSE, l |-> l, eff |-> <<>>]
       ELSE LET r == L!Apply(l, [act |-> e.method, by |-> WALLET, dep |-> e.deposit] @@ LArgs(e)) IN
            IF r.ok THEN OnLockupAll(r.s, q, i + 1, eff \o r.eff) ELSE [ok |-> FALSE, l |-> l, eff |-> <<>>]
Wallet(s, a, good) == M!Apply(s.m, [act |-> "env_exec", i |-> a.i, good |-> good])
ExecM(s, a) ==
  LET i == ToInt(a.i) IN
  IF i \notin DOMAIN s.m.ops THEN Fail(s)
  ELSE LET op == s.m.ops[i] IN
       IF op.to = Lid(s)
       THEN LET x == IF Has(s) THEN OnLockupAll(Lk(s), op.eff, 1, <<>>) ELSE [ok |-> FALSE]
                t == [s EXCEPT !.m = Wallet(s, a, x.ok).s]
            IN IF x.ok THEN Result(Sync([t EXCEPT !.k.locks[Lid(s)] = x.l, !.asked = TRUE]), TRUE, "none", x.eff) ELSE Fail(t)
       ELSE LET r == Wallet(s, a, a.good)
                t == [s EXCEPT !.m = r.s]
            IN Result(IF op.to # WALLET /\ a.good THEN Gone(t, op.out) ELSE t, r.ok, r.ret, r.eff)

(***************************************************************************)
(* What the lockup sent off.                                               *)
(***************************************************************************)
Call(s, m, op) ==
  [act |-> m, by |-> Lid(s)] @@ (IF m \in {"deposit", "deposit_and_stake"} THEN [dep |-> op.amt]
                                ELSE IF m \in {"withdraw", "stake", "unstake"} THEN [dep |-> "0", amount |-> op.amt] ELSE [dep |-> "0"])
Method(k) == CASE k = "withdraw_t" -> "withdraw" [] k = "unstake_t" -> "unstake" [] OTHER -> k
Remote(s, a) ==
  LET i == ToInt(a.i) IN
  IF ~Has(s) THEN Fail(s)
  ELSE IF ~(i \in DOMAIN Lk(s).ops) THEN Fail(s)
  ELSE IF Lk(s).ops[i].phase # "call" THEN Fail(s)
  ELSE LET op == Lk(s).ops[i]
           heard(x, good, val) == Sync([x EXCEPT !.k.locks[Lid(s)] = L!Apply(Lk(x), [act |-> "env_resolve", i |-> a.i, good |-> good, val |-> val]).s])
           says(val) == Result(heard(s, TRUE, val), TRUE, "none", <<>>)
           pool == s.f.pools[op.to]
       IN IF op.kind = "select" THEN says(IF op.to \in s.f.white.pools THEN "true" ELSE "false")
          ELSE IF op.kind \in {"transfer", "pay"}
          THEN IF op.to = WALLET THEN Result([heard(s, TRUE, "none") EXCEPT !.m.bal = s.m.bal ++ op.amt], TRUE, "none", <<>>)
               ELSE Result(IF a.good THEN Gone(heard(s, TRUE, "none"), op.amt) ELSE heard(s, FALSE, "none"), a.good, "none", <<>>)
          ELSE IF op.to \notin Pools(s) THEN Result(heard(s, FALSE, "none"), FALSE, "none", <<>>)   \* nobody is there
          ELSE CASE op.kind = "refresh" -> says(P!TotalOf(pool, Lid(s)))
                 [] op.kind \in {"ask_unstaked", "ask_unstaked_t"} -> says(P!Acc(pool, Lid(s)).un)
                 [] op.kind = "ask_staked_t" -> says(P!StakedOf(pool, Lid(s)))
                 [] OTHER -> LET r == PoolStep(s, op.to, Call(s, Method(op.kind), op))
                             IN Result(heard(r.s, r.ok, "none"), r.ok, "none", r.eff)
Heard(s, a) == IF ~Has(s) THEN Fail(s) ELSE IF ToInt(a.i) \in DOMAIN Lk(s).ops THEN OnLockup(s, [act |-> "env_cb", i |-> a.i]) ELSE Fail(s)

(***************************************************************************)
(* What the pools sent off; time.                                          *)
(***************************************************************************)
AtPool(s, a, x) == IF a.p \notin Pools(s) THEN Fail(s) ELSE LET r == PoolStep(s, a.p, x) IN Result(r.s, r.ok, r.ret, r.eff)
Payout(s, a) ==
  IF a.p \notin Pools(s) \/ Get(s.dest, a.p, <<>>) = <<>> THEN Fail(s)
  ELSE LET to == Head(s.dest[a.p])
           bad == a.refuse /\ to # Lid(s)
           amt == Head(s.f.pools[a.p].xferQ)
           t == [s EXCEPT !.f.pools[a.p] = P!Apply(s.f.pools[a.p], [act |-> "env_xfer", refuse |-> bad]).s, !.dest[a.p] = Tail(s.dest[a.p])]
       IN Result(IF to = Lid(s) THEN [t EXCEPT !.k.locks[Lid(s)].bal = Lk(s).bal ++ amt, !.k.locks[Lid(s)].transit = Lk(s).transit -- amt]
                 ELSE IF bad THEN t ELSE Gone(t, amt), ~bad, "none", <<>>)
(* a.earned: for each pool, what its stake earned and what of it became liquid *)
Epoch(s, a) ==
  LET e(x) == Get(a.earned, x, [reward |-> "0", unlock |-> "0"]) IN
  Result(Sync(In([s EXCEPT !.f.cfg.epoch = s.f.cfg.epoch ++ a.n,
                           !.f.pools = [x \in Pools(s) |-> P!Apply(s.f.pools[x], [act |-> "env_epoch", n |-> a.n, reward |-> e(x).reward, unlock |-> e(x).unlock]).s]],
                 SumF([x \in Pools(s) |-> e(x).reward]))), TRUE, "none", <<>>)
Time(s, a) == Result([s EXCEPT !.k = K!Apply(s.k, a).s, !.m = M!Apply(s.m, a).s], TRUE, "none", <<>>)

Apply(s, a) ==
  CASE a.act = "create_pool" -> CreatePool(s, a)
    [] a.act = "create_lockup" -> CreateLockup(s, a)
    [] a.act = "whitelist" -> OnWhitelist(s, a)
    [] a.act = "wallet" -> OnWallet(s, a)
    [] a.act = "lockup" -> OnLockup(s, a.a)
    [] a.act = "pool" -> OnPool(s, a)
    [] a.act = "env_factory" -> ExecF(s, a)
    [] a.act = "env_lockups" -> ExecK(s, a)
    [] a.act = "env_wallet" -> ExecM(s, a)
    [] a.act = "env_remote" -> Remote(s, a)
    [] a.act = "env_cb" -> Heard(s, a)
    [] a.act = "env_stake" -> AtPool(s, a, [act |-> "env_stake", refuse |-> a.refuse])
    [] a.act = "env_pool_cb" -> AtPool(s, a, [act |-> "env_cb"])
    [] a.act = "env_xfer" -> Payout(s, a)
    [] a.act = "env_epoch" -> Epoch(s, a)
    [] a.act = "env_time" -> Time(s, a)

(* cfg: [balance (of the factories), wallet (its configuration), make (how it is initialised), epoch, time, names, sched, salt,
   pre (what has happened before)] *)
RECURSIVE Run(_, _, _)
Run(s, q, i) == IF i > Len(q) THEN s ELSE Run(Apply(s, q[i]).s, q, i + 1)
Initial(cfg) ==
  LET f == F!Apply(F!Initial([balance |-> cfg.balance, epoch |-> cfg.epoch, names |-> cfg.names]), [act |-> "new", by |-> FOUND, dep |-> "0", wl |-> "wl.near"]).s
      k == K!Apply(K!Initial([self |-> "lf.near", balance |-> cfg.balance, time |-> cfg.time, sched |-> cfg.sched, salt |-> cfg.salt]),
                   [act |-> "new", by |-> FOUND, dep |-> "0", wl |-> "wl.near", found |-> FOUND]).s
      m == M!Apply(M!Initial(cfg.wallet), cfg.make).s
      n == IF m.ops = <<>> THEN m ELSE M!Apply(m, [act |-> "env_exec", i |-> "1", good |-> TRUE]).s
      s == [f |-> f, k |-> k, m |-> n, dest |-> <<>>, net |-> "0", hand |-> {}, asked |-> FALSE]
  IN Run([s EXCEPT !.net = Held(s)], cfg.pre, 1)

Obs(s) == [pools |-> F!Obs(s.f), lockups |-> K!Obs(s.k), wallet |-> M!Obs(s.m)]

(***************************************************************************)
(* E02.                                                                    *)
(***************************************************************************)
(* No token appears or disappears: what was brought in is held, on its way, or was paid out. *)
InvTokens(s) == Held(s) = s.net
(* The whitelist has only pools that exist by the factory's hand, or were put there by the foundation. *)
InvGenuine(s) == \A x \in s.f.white.pools : x \in Pools(s) \/ x \in s.hand
(* The lockup stakes only with such pools, and all it believes to have there is there. *)
InvStaked(s) ==
  Has(s) => /\ \A x \in Lk(s).confirmed : x \in Pools(s) \/ x \in s.hand
            /\ \A x \in Pools(s) : P!TotalOf(s.f.pools[x], Lid(s)) # "0" => x \in Lk(s).confirmed
            /\ L!InvCovered(Lk(s))
(* A lockup that its owner has not used is as its terms made it. *)
InvUntouched(s) ==
  Has(s) /\ ~s.asked =>
    \/ Lk(s).pool = "none" /\ Lk(s).dep = "0" /\ Lk(s).ops = <<>>
    \/ Lk(s).found = FOUND
InvPools(s) == \A x \in Pools(s) : P!InvSolvent(s.f.pools[x]) /\ P!InvPrice(s.f.pools[x])
InvPaths(s) == \A x \in Pools(s) : Len(Get(s.dest, x, <<>>)) = Len(s.f.pools[x].xferQ)
(* The wallet's lockup does what its owner may only by a request of the wallet that its members confirmed. *)
OwnersOps == {"select", "deposit", "deposit_and_stake", "withdraw", "stake", "unstake", "unstake_all", "refresh", "ask_unstaked", "transfer"}
StepQuorum(s, a, r) ==
  Has(s) /\ a.act # "env_wallet" =>
    LET l == s.k.locks[Lid(s)] t == r.s.k.locks[Lid(s)] IN
    /\ Cardinality({i \in DOMAIN t.ops : t.ops[i].kind \in OwnersOps}) > Cardinality({i \in DOMAIN l.ops : l.ops[i].kind \in OwnersOps})
         => a.act = "env_cb" /\ l.ops[ToInt(a.i)].kind = "ask_unstaked"
    /\ t.pool # l.pool => a.act = "env_cb"
(* What the wallet asks of the lockup was confirmed by enough of its members. *)
StepConfirmed(s, a, r) == a.act = "wallet" => M!StepExecute(s.m, a.a, [s |-> r.s.m, ok |-> r.ok, ret |-> r.ret, eff |-> r.eff])
(* A factory's failed creation costs the factory nothing and leaves nothing behind. *)
InvFactories(s) == F!InvMoney(s.f) /\ F!InvListed(s.f) /\ K!InvMoney(s.k)

EffOrdered == FALSE
Blame(st, a, d, r) == {"E02"}
=============================================================================
