------------------------------ MODULE NetworkMC ------------------------------
(* Bounded action sets: how everything comes to be, in any order, and how  *)
(* a wallet of two uses its lockup.                                        *)
EXTENDS Network
CONSTANTS Alphabet, Depth
VARIABLES s, last

Sched == [start |-> "1602614338293769000", cliff |-> "1602614338293769400", end |-> "1602614338293770600"]
Member(x) == [kind |-> "account", account |-> x]
NewPool(id, x) == [act |-> "create_pool", by |-> "carol.near", dep |-> F!MIN_DEPOSIT ++ x, id |-> id, owner |-> "oper.near", key |-> "k1", fee |-> [n |-> "1", d |-> "3"]]
NewLockup(o, x) == [act |-> "create_lockup", by |-> "carol.near", dep |-> K!MIN_DEPOSIT ++ x, owner |-> o, dur |-> "0", ts |-> "none", rel |-> "none", wl |-> "none", vesting |-> [kind |-> "none"]]
Vesting == [NewLockup(WALLET, "1000") EXCEPT !.vesting = [kind |-> "schedule", sched |-> Sched]]
White(u, m, x) == [act |-> "whitelist", m |-> m, by |-> u, dep |-> "0", id |-> x]
At(k) == [act |-> k, i |-> "1", good |-> TRUE]
Up(x) == [act |-> "env_stake", p |-> x, refuse |-> FALSE]

P1 == "p1.f.near"
Fn(m, args) == [type |-> "FunctionCall", method_name |-> m, args |-> args, deposit |-> "0", gas |-> IF m = "withdraw_all_from_staking_pool" THEN "185000000000000" ELSE "130000000000000"]
Pay(x) == [type |-> "Transfer", amount |-> x]
Ask(id, m, args) == [receiver_id |-> id, actions |-> <<Fn(m, args)>>]
Req(u, q) == [act |-> "wallet", a |-> [act |-> "add_request_and_confirm", by |-> u, pk |-> "ka", dep |-> "0", request |-> q]]
Conf(u, i) == [act |-> "wallet", a |-> [act |-> "confirm", by |-> u, pk |-> "ka", dep |-> "0", id |-> i]]
Select(id, x) == Ask(id, "select_staking_pool", [staking_pool_account_id |-> x])
AmtAsk(id, m, x) == Ask(id, m, [amount |-> x])
Send(id, x, to) == Ask(id, "transfer", [amount |-> x, receiver_id |-> to])

Wal == [v |-> "2", balance |-> "100000", time |-> "1602614338293769350", keys |-> <<[key |-> "k0", full |-> TRUE]>>, univ |-> <<"a:alice.near", "a:bob.near">>]
Make(k, ms) == [act |-> "new", by |-> "creator.near", pk |-> "km", dep |-> "0", K |-> k, members |-> ms]
Base == [balance |-> "1000", epoch |-> "5", time |-> "1602614338293769350", names |-> <<P1, "p2.f.near">>, sched |-> Sched, salt |-> "c2FsdA==",
         owners |-> <<WALLET, "alice.near">>, wallet |-> Wal, make |-> Make("1", <<Member("alice.near")>>), pre |-> <<>>]
Id == K!LockupId(K!Initial([self |-> "lf.near", balance |-> "0", time |-> "0", sched |-> Sched, salt |-> "c2FsdA=="]), WALLET)
(* A pool, reported; a lockup; the wallet has the pool selected. *)
Made(l) == <<White(FOUND, "add_factory", "f.near"), NewPool("p1", "13"), At("env_factory"), At("env_factory"), At("env_factory"), l, At("env_lockups"), At("env_lockups"),
             Req("alice.near", Select(Id, P1)), Conf("bob.near", "0"), At("env_wallet"), At("env_remote"), [act |-> "env_cb", i |-> "1"]>>
Two == [Base EXCEPT !.make = Make("2", <<Member("alice.near"), Member("bob.near")>>)]
Cfgs == IF Alphabet = "birth" THEN {Base}
        ELSE {[Two EXCEPT !.pre = Made(NewLockup(WALLET, "1000"))], [Two EXCEPT !.pre = Made(Vesting)]}

Pending(q, k) == {[act |-> k, i |-> Z(i), good |-> TRUE] : i \in DOMAIN q}
Goes(st) ==
  Pending(st.f.ops, "env_factory") \cup Pending(st.k.ops, "env_lockups") \cup Pending(st.m.ops, "env_wallet")
  \cup (IF ~Has(st) THEN {} ELSE {IF Lk(st).ops[i].phase = "call" THEN [act |-> "env_remote", i |-> Z(i), good |-> TRUE] ELSE [act |-> "env_cb", i |-> Z(i)] : i \in DOMAIN Lk(st).ops})
  \cup UNION {LET p == st.f.pools[x] IN
              (IF p.stakeQ # <<>> THEN {Up(x)} ELSE {}) \cup (IF p.cbQ # <<>> THEN {[act |-> "env_pool_cb", p |-> x]} ELSE {})
              \cup (IF Get(st.dest, x, <<>>) # <<>> THEN {[act |-> "env_xfer", p |-> x, refuse |-> FALSE]} ELSE {}) : x \in Pools(st)}
Bad(q, k) == {[act |-> k, i |-> Z(i), good |-> FALSE] : i \in {j \in DOMAIN q : q[j].kind = "create"}}

(* Factories, whitelist, wallet: everything on its way, in any order. *)
Birth(st) ==
  Goes(st) \cup Bad(st.f.ops, "env_factory") \cup Bad(st.k.ops, "env_lockups")
  \cup (IF Len(st.f.ops) > 1 \/ Cardinality(Pools(st)) > 1 THEN {} ELSE {NewPool("p1", "13"), NewPool("p1", "14")})
  \cup (IF Len(st.k.ops) > 0 THEN {} ELSE {NewLockup(WALLET, "1000"), Vesting})
  \cup (IF "f.near" \in st.f.white.factories THEN {White(FOUND, "remove_factory", "f.near"), White("f.near", "add_staking_pool", "p2.f.near")} ELSE {White(FOUND, "add_factory", "f.near"), White("mallory.near", "add_factory", "f.near")})
  \cup (IF st.m.ops # <<>> \/ st.m.nonce = "3" THEN {} ELSE {Req("alice.near", Select(Lid(st), P1)), Req("bob.near", Select(Lid(st), P1))})

(* A wallet of two and its lockup; a termination may come in between. *)
Reqs(st) == {AmtAsk(Lid(st), "deposit_and_stake", "700"), Ask(Lid(st), "unstake_all", <<>>), Ask(Lid(st), "withdraw_all_from_staking_pool", <<>>),
             Send(Lid(st), "300", WALLET), Send(Lid(st), "100", "out.near"), [receiver_id |-> Lid(st), actions |-> <<Pay("50"), Fn("unselect_staking_pool", <<>>)>>]}
ByFound(m, x) == [act |-> "lockup", a |-> [act |-> m, by |-> FOUND, dep |-> "0"] @@ x]
Live(st) ==
  LET g == Goes(st) IN
  IF g # {} /\ st.m.reqs = <<>> THEN {CHOOSE a \in g : TRUE} \cup {[act |-> "lockup", a |-> [act |-> "unstake_all", by |-> "alice.near", dep |-> "0"]]}
  ELSE IF st.m.reqs # <<>>
  THEN g \cup UNION {{Conf(u, i) : u \in {"alice.near", "bob.near", "carol.near"}} : i \in DOMAIN st.m.reqs}
       \cup (IF Lk(st).vest.kind # "none" /\ ~L!Terminating(Lk(st)) THEN {ByFound("terminate_vesting", [reveal |-> FALSE, sched |-> Sched, salt |-> "none"])} ELSE {})
  ELSE {Req("alice.near", q) : q \in Reqs(st)}
       \cup (IF L!Terminating(Lk(st)) THEN {ByFound("termination_prepare_to_withdraw", <<>>), ByFound("termination_withdraw", [receiver |-> "treasury.near", receiverValid |-> TRUE])} ELSE {})
       \cup (IF st.f.cfg.epoch \prec "11" THEN {[act |-> "env_epoch", n |-> "4", earned |-> [x \in Pools(st) |-> [reward |-> "11", unlock |-> SatSub(st.f.pools[x].locked ++ "11", st.f.pools[x].prop)]]]} ELSE {})
Acts(st) == IF Alphabet = "birth" THEN Birth(st) ELSE Live(st)

INSTANCE Explore
R == [ok |-> last'.ok, s |-> s', eff |-> last'.eff, ret |-> last'.ret]
E02_Tokens == InvTokens(s)
E02_Genuine == InvGenuine(s)
E02_Staked == InvStaked(s)
E02_Untouched == InvUntouched(s)
E02_Pools == InvPools(s) /\ InvPaths(s)
E02_Factories == InvFactories(s)
E02_Quorum == [][StepQuorum(s, last'.act, R) /\ StepConfirmed(s, last'.act, R)]_<<s, last>>
=============================================================================
