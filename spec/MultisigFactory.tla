-------------------------- MODULE MultisigFactory --------------------------
(***************************************************************************)
(* The multisig factory, together with the multisigs it creates (their own *)
(* specification, instantiated).  The factory has no state; each creation  *)
(* is one batch (ops), carried out in any order.                           *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

M == INSTANCE Multisig

Self == "mf.near"
NEW_GAS == "50000000000000"     \* what is set aside of the attached gas
U32MAX == "4294967295"

(* cfg: [balance, time, names (asked about), univ (members asked about)] *)
Initial(cfg) == [cfg |-> cfg, bal |-> cfg.balance, ops |-> <<>>, wallets |-> <<>>]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* Names that give no account at all, and names that give one the factory may not create. *)
Wallet(x) == Concat(x, Concat(".", Self))
BadName(x) == ~IsAccountId(Wallet(x))
Foreign(x) == Contains(x, ".")
BadKey(m) == m.kind = "key" /\ M!BadKey(m.key)

Create(s, a) ==
  IF ~(a.gas = "300" /\ ~BadName(a.name) /\ ~(\E i \in DOMAIN a.members : BadKey(a.members[i])) /\ a.K \preceq U64MAX) THEN Fail(s)
  ELSE Result([s EXCEPT !.ops = Append(s.ops, [name |-> a.name, dep |-> a.dep, by |-> a.by, pk |-> a.pk, members |-> a.members, K |-> a.K])], TRUE, "none",
              <<[kind |-> "creation", to |-> Wallet(a.name), code |-> "multisig2", amount |-> a.dep, method |-> "new", deposit |-> "0",
                 args |-> [members |-> a.members, num_confirmations |-> a.K]]>>)

(* The new multisig, with its keys added (unless that fails). *)
NewWallet(s, op) ==
  LET m0 == M!Initial([v |-> "2", balance |-> op.dep, time |-> s.cfg.time, keys |-> <<>>, univ |-> s.cfg.univ])
      m1 == IF op.K \preceq U32MAX
            THEN M!Apply(m0, [act |-> "new", by |-> Self, pk |-> op.pk, dep |-> "0", K |-> op.K, members |-> op.members]) ELSE M!Fail(m0)
  IN IF ~m1.ok \/ m1.s.ops = <<>> THEN m1
     ELSE [m1 EXCEPT !.s = M!Apply(m1.s, [act |-> "env_exec", i |-> "1", good |-> TRUE]).s]

Execute(s, a) ==
  IF ToInt(a.i) > Len(s.ops) THEN Fail(s)
  ELSE LET i == ToInt(a.i)
           op == s.ops[i]
           x == Wallet(op.name)
           m == NewWallet(s, op)
           s1 == [s EXCEPT !.ops = Without(s.ops, i)]
           good == a.good /\ x \notin DOMAIN s.wallets /\ ~Foreign(op.name) /\ m.ok
       IN IF good THEN Result([s1 EXCEPT !.wallets = (x :> m.s) @@ s.wallets], TRUE, "none", <<>>)
          \* known finding F03: nobody hears of it, and the deposit stays with the factory
          ELSE Result([s1 EXCEPT !.bal = s.bal ++ op.dep], FALSE, "none", <<>>)

Apply(s, a) ==
  CASE a.act = "create" -> Create(s, a)
    [] a.act = "env_exec" -> Execute(s, a)

Obs(s) == [bal |-> s.bal, wallets |-> [x \in DOMAIN s.wallets |-> M!Obs(s.wallets[x])]]

(***************************************************************************)
(* F03.                                                                    *)
(***************************************************************************)
InvWallets(s) ==
  \A x \in DOMAIN s.wallets : s.wallets[x].init /\ s.wallets[x].K \preceq U32MAX /\ s.wallets[x].reqs = <<>> /\ s.wallets[x].ops = <<>>
StepTerms(s, a, r) ==
  /\ \A x \in DOMAIN s.wallets : x \in DOMAIN r.s.wallets /\ r.s.wallets[x] = s.wallets[x]
  /\ \A x \in DOMAIN r.s.wallets \ DOMAIN s.wallets :
       LET op == s.ops[ToInt(a.i)] w == r.s.wallets[x] IN
       x = Wallet(op.name) /\ w.K = op.K /\ w.bal = op.dep /\ w.members = {M!Id(op.members[i]) : i \in DOMAIN op.members}
         /\ (\A k \in DOMAIN w.keys : \E i \in DOMAIN op.members : op.members[i].kind = "key" /\ op.members[i].key = k)
         /\ r.s.bal = s.bal
InvMoney(s) == s.cfg.balance \preceq s.bal

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) == {"F03"}
=============================================================================
