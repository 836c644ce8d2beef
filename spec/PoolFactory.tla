---------------------------- MODULE PoolFactory ----------------------------
(***************************************************************************)
(* The staking pool factory, together with the whitelist it reports to and *)
(* the staking pools it creates (their own specifications, instantiated).  *)
(*                                                                         *)
(* What it sends off waits in ops, and is carried out in any order:        *)
(*   create  the batch that makes, funds and initialises a pool account    *)
(*   cb      the factory hearing how that went                             *)
(*   report  the call that puts the new pool on the whitelist              *)
(*   refund  the deposit on its way back to the payer                      *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

W == INSTANCE Whitelist
P == INSTANCE StakingPool

Self == "f.near"
Foundation == "found.near"
WL == "wl.near"
MIN_DEPOSIT == "30000000000000000000000000"

(* cfg: [balance of the factory, epoch, names (of pools asked about)] *)
WNew == [act |-> "new", by |-> Foundation, dep |-> "0", id |-> Foundation]
Initial(cfg) ==
  [ cfg |-> cfg, init |-> FALSE, wl |-> "none", ids |-> {}, bal |-> cfg.balance, ops |-> <<>>,
    pools |-> <<>>, white |-> W!Apply(W!Initial([univ |-> <<>>]), WNew).s ]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
SetOf(q) == {q[i] : i \in DOMAIN q}

BadAccount(x) == ~IsAccountId(x)
BadName(x) == Contains(x, ".")
PoolId(x) == Concat(x, Concat(".", Self))
ValidFee(f) == f.d # "0" /\ f.n \preceq f.d

New(s, a) ==
  IF s.init \/ a.dep # "0" \/ BadAccount(a.wl) THEN Fail(s)
  ELSE Result([s EXCEPT !.init = TRUE, !.wl = a.wl], TRUE, "none", <<>>)

Create(s, a) ==
  LET id == PoolId(a.id) IN
  IF ~(/\ s.init /\ MIN_DEPOSIT \preceq a.dep
       /\ ~BadName(a.id) /\ ~BadAccount(id) /\ ~BadAccount(a.owner) /\ a.key # "bad" /\ ValidFee(a.fee)
       /\ id \notin s.ids)
  THEN Fail(s)
  ELSE Result([s EXCEPT !.ids = s.ids \cup {id},
                        !.ops = Append(s.ops, [kind |-> "create", id |-> id, dep |-> a.dep, by |-> a.by, owner |-> a.owner, key |-> a.key, fee |-> a.fee])],
              TRUE, "none",
              <<[kind |-> "creation", to |-> id, code |-> "staking-pool", amount |-> a.dep, method |-> "new", deposit |-> "0",
                 args |-> [owner_id |-> a.owner, stake_public_key |-> a.key,
                           reward_fee_fraction |-> [numerator |-> a.fee.n, denominator |-> a.fee.d]]]>>)

(* The new pool, initialised and with its first stake placed. *)
NewPool(s, op) ==
  LET p0 == P!Initial([users |-> <<op.owner>>, balance |-> op.dep, epoch |-> s.cfg.epoch])
      p1 == P!Apply(p0, [act |-> "new", by |-> Self, dep |-> "0", owner |-> op.owner, ownerValid |-> TRUE, key |-> op.key, keyValid |-> TRUE, fee |-> op.fee])
      p2 == P!Apply(p1.s, [act |-> "env_stake", refuse |-> FALSE])
  IN P!Apply(p2.s, [act |-> "env_cb"])

Execute(s, a) ==
  IF ToInt(a.i) > Len(s.ops) THEN Fail(s)
  ELSE LET i == ToInt(a.i)
           op == s.ops[i]
           s1 == [s EXCEPT !.ops = Without(s.ops, i)]
       IN CASE op.kind = "create" ->
                 LET good == a.good /\ op.id \notin DOMAIN s.pools
                     s2 == [s1 EXCEPT !.ops = Append(s1.ops, [kind |-> "cb", id |-> op.id, dep |-> op.dep, by |-> op.by, good |-> good])]
                 IN Result(IF good THEN [s2 EXCEPT !.pools = (op.id :> NewPool(s, op).s) @@ s.pools]
                           ELSE [s2 EXCEPT !.bal = s.bal ++ op.dep], good, "none", <<>>)
            [] op.kind = "cb" ->
                 IF op.good
                 THEN Result([s1 EXCEPT !.ops = Append(s1.ops, [kind |-> "report", id |-> op.id])], TRUE, "none",
                             <<[kind |-> "call", to |-> s.wl, method |-> "add_staking_pool", args |-> [staking_pool_account_id |-> op.id], deposit |-> "0"]>>)
                 ELSE Result([s1 EXCEPT !.ids = s.ids \ {op.id}, !.bal = s.bal -- op.dep,
                                        !.ops = Append(s1.ops, [kind |-> "refund", dep |-> op.dep])], TRUE, FALSE,
                             <<[kind |-> "transfer", to |-> op.by, amount |-> op.dep]>>)
            [] op.kind = "report" ->
                 IF s.wl # WL THEN Result(s1, FALSE, "none", <<>>)
                 ELSE LET r == W!Apply(s.white, [act |-> "add_staking_pool", by |-> Self, dep |-> "0", id |-> op.id])
                      IN Result([s1 EXCEPT !.white = r.s], r.ok, r.ret, <<>>)
            [] OTHER -> Result(s1, TRUE, "none", <<>>)

(* Somebody calls the whitelist. *)
OnWhitelist(s, a) ==
  LET r == W!Apply(s.white, [act |-> a.m, by |-> a.by, dep |-> a.dep, id |-> a.id])
  IN Result([s EXCEPT !.white = r.s], r.ok, r.ret, <<>>)

Apply(s, a) ==
  CASE a.act = "new" -> New(s, a)
    [] a.act = "create_staking_pool" -> Create(s, a)
    [] a.act = "on_staking_pool_create" -> Fail(s)
    [] a.act = "whitelist" -> OnWhitelist(s, a)
    [] a.act = "env_exec" -> Execute(s, a)

Obs(s) ==
  IF ~s.init THEN [init |-> FALSE, bal |-> s.bal]
  ELSE [init |-> TRUE, bal |-> s.bal, min |-> MIN_DEPOSIT, n |-> Z(Cardinality(s.ids)),
        pools |-> [x \in DOMAIN s.pools |-> P!Obs(s.pools[x])],
        white |-> {x \in s.white.pools : x \in SetOf(s.cfg.names)}]

(***************************************************************************)
(* F01.                                                                    *)
(***************************************************************************)
Underway(s) == {i \in DOMAIN s.ops : s.ops[i].kind \in {"create", "cb"}}
(* The factory lists exactly what it is creating or has created, each once. *)
InvListed(s) ==
  /\ s.ids = DOMAIN s.pools \cup {s.ops[i].id : i \in Underway(s)}
  /\ \A i, j \in Underway(s) : s.ops[i].id = s.ops[j].id => i = j
  /\ \A i \in Underway(s) : s.ops[i].id \in DOMAIN s.pools <=> (s.ops[i].kind = "cb" /\ s.ops[i].good)
(* The factory neither keeps nor spends anybody's deposit. *)
InvMoney(s) ==
  s.bal = s.cfg.balance ++ SumF([i \in {j \in DOMAIN s.ops : s.ops[j].kind = "cb" /\ ~s.ops[j].good} |-> s.ops[i].dep])
(* It reports only pools that exist. *)
InvReports(s) == \A i \in DOMAIN s.ops : s.ops[i].kind = "report" => s.ops[i].id \in DOMAIN s.pools
InvFunded(s) == \A x \in DOMAIN s.pools : MIN_DEPOSIT \preceq (s.pools[x].bal ++ s.pools[x].locked)
(* A creation ends in a report or in a refund to its payer, never both. *)
StepEnds(s, a, r) ==
  a.act = "env_exec" /\ ToInt(a.i) \in DOMAIN s.ops /\ s.ops[ToInt(a.i)].kind = "cb" =>
    LET op == s.ops[ToInt(a.i)] IN
    IF op.id \in DOMAIN s.pools
    THEN /\ r.eff # <<>> /\ r.eff[1].kind = "call" /\ r.eff[1].args.staking_pool_account_id = op.id /\ op.id \in r.s.ids
    ELSE /\ r.eff # <<>> /\ r.eff[1].kind = "transfer" /\ r.eff[1].to = op.by /\ r.eff[1].amount = op.dep /\ op.id \notin r.s.ids
(* The whitelist grows by the factory's hand only with pools the factory made. *)
StepWhite(s, a, r) ==
  \A x \in r.s.white.pools \ s.white.pools : a.act = "env_exec" => x \in DOMAIN s.pools
(* A pool appears with the terms of its request and does not change or go. *)
StepTerms(s, a, r) ==
  /\ \A x \in DOMAIN s.pools : x \in DOMAIN r.s.pools /\ r.s.pools[x] = s.pools[x]
  /\ \A x \in DOMAIN r.s.pools \ DOMAIN s.pools :
       LET op == s.ops[ToInt(a.i)] p == r.s.pools[x] IN
       /\ op.id = x /\ p.init /\ p.owner = op.owner /\ p.key = op.key /\ p.fee = op.fee /\ (p.bal ++ p.locked) = op.dep

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) ==
  LET b == UNION { When(st.init /\ a.act \notin {"new", "on_staking_pool_create", "whitelist"}, {"F01"}),
                   When(a.act = "whitelist", {"W01"}),
                   When(a.act \in {"new", "on_staking_pool_create"} \/ ~st.init, {"C01"}) }
  IN IF d \cap {"n", "pools", "bal", "min", "white"} # {} \/ (a.act = "on_staking_pool_create" /\ st.init) THEN b \cup {"F01"} ELSE b
=============================================================================
