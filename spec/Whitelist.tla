------------------------------ MODULE Whitelist ------------------------------
(***************************************************************************)
(* The whitelist of staking pools, kept by the foundation and by the       *)
(* factories it whitelisted.                                               *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

(* cfg: [univ: accounts that are asked about] *)
Initial(cfg) == [cfg |-> cfg, init |-> FALSE, found |-> "none", pools |-> {}, factories |-> {}]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
BadAccount(x) == ~IsAccountId(x)

Who(s, a) == CASE a.act = "add_staking_pool" -> s.factories \cup {s.found}
               [] OTHER -> {s.found}
Change(s, a) ==
  IF ~s.init \/ a.dep # "0" \/ BadAccount(a.id) \/ a.by \notin Who(s, a) THEN Fail(s)
  ELSE CASE a.act = "add_staking_pool" -> Result([s EXCEPT !.pools = s.pools \cup {a.id}], TRUE, a.id \notin s.pools, <<>>)
         [] a.act = "remove_staking_pool" -> Result([s EXCEPT !.pools = s.pools \ {a.id}], TRUE, a.id \in s.pools, <<>>)
         [] a.act = "add_factory" -> Result([s EXCEPT !.factories = s.factories \cup {a.id}], TRUE, a.id \notin s.factories, <<>>)
         [] a.act = "remove_factory" -> Result([s EXCEPT !.factories = s.factories \ {a.id}], TRUE, a.id \in s.factories, <<>>)

Apply(s, a) ==
  IF a.act = "new"
  THEN IF s.init \/ a.dep # "0" \/ BadAccount(a.id) THEN Fail(s) ELSE Result([s EXCEPT !.init = TRUE, !.found = a.id], TRUE, "none", <<>>)
  ELSE Change(s, a)

SetOf(q) == {q[i] : i \in DOMAIN q}
Obs(s) == IF ~s.init THEN [init |-> FALSE]
          ELSE [init |-> TRUE, pools |-> s.pools \cap SetOf(s.cfg.univ), factories |-> s.factories \cap SetOf(s.cfg.univ)]

(***************************************************************************)
(* W01.                                                                    *)
(***************************************************************************)
StepPools(s, a, r) ==
  /\ \A p \in r.s.pools \ s.pools : a.act = "add_staking_pool" /\ a.id = p /\ a.by \in s.factories \cup {s.found}
  /\ \A p \in s.pools \ r.s.pools : a.act = "remove_staking_pool" /\ a.id = p /\ a.by = s.found
  /\ \A f \in (r.s.factories \ s.factories) \cup (s.factories \ r.s.factories) :
       a.act \in {"add_factory", "remove_factory"} /\ a.id = f /\ a.by = s.found
  /\ s.init => r.s.found = s.found

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) ==
  LET b == UNION { When(st.init /\ a.act # "new", {"W01"}),
                   When((a.act = "new" /\ st.init) \/ (~st.init /\ d \cap {"ok", "init"} # {}), {"C01"}) }
  IN IF b = {} THEN {"W01"} ELSE b
=============================================================================
