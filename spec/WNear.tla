------------------------------- MODULE WNear -------------------------------
(***************************************************************************)
(* wNEAR: NEAR wrapped one for one as a NEP-141 token, with NEP-145        *)
(* storage registration.  Transfers-and-calls in flight are ops: the       *)
(* receiver's answer (env_answer) and the contract's reaction to it        *)
(* (env_cb) come at any later time, in any order.                          *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

Self == "w.near"
MIN == "1250000000000000000000"   \* storage of the longest account entry: 125 bytes at 10^19
Meta == [spec |-> "ft-1.0.0", name |-> "Wrapped NEAR fungible token", symbol |-> "wNEAR", decimals |-> "24",
         icon |-> "none", reference |-> "none", reference_hash |-> "none"]

(* cfg: [balance, univ: sequence of accounts asked about] *)
Initial(cfg) == [cfg |-> cfg, init |-> FALSE, bal |-> cfg.balance, accts |-> <<>>, supply |-> "0", ops |-> <<>>]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
BadAccount(x) == ~IsAccountId(x)
Absent == {"nobody.near"}         \* anybody can register an account that does not exist
Reg(s, u) == u \in DOMAIN s.accts
Has(s, u) == IF Reg(s, u) THEN s.accts[u] ELSE "0"
Set(s, u, v) == (u :> v) @@ s.accts
Pay(u, n) == <<[kind |-> "transfer", to |-> u, amount |-> n]>>
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
IsAmount(x) == IsNat(x) /\ FitsU128(x)

Deposit(s, a) ==
  LET new == ~Reg(s, a.by)
      n == IF new THEN a.dep -- MIN ELSE a.dep
  IN IF a.dep = "0" \/ (new /\ a.dep \prec MIN) THEN Fail(s)
     ELSE Result([s EXCEPT !.bal = s.bal ++ a.dep, !.accts = Set(s, a.by, Has(s, a.by) ++ n), !.supply = s.supply ++ n], TRUE, "none", <<>>)

Withdraw(s, a) ==
  IF a.dep # "1" \/ ~IsAmount(a.amount) \/ ~Reg(s, a.by) \/ Has(s, a.by) \prec a.amount THEN Fail(s)
  ELSE Result([s EXCEPT !.bal = s.bal -- a.amount, !.accts = Set(s, a.by, Has(s, a.by) -- a.amount), !.supply = s.supply -- a.amount],
              TRUE, "none", Pay(a.by, a.amount ++ "1"))

Movable(s, a) ==
  /\ a.dep = "1" /\ IsAmount(a.amount) /\ a.amount # "0"
  /\ Reg(s, a.to) /\ Reg(s, a.by) /\ a.to # a.by
  /\ a.amount \preceq Has(s, a.by)
Moved(s, a) ==
  [s EXCEPT !.bal = s.bal ++ "1",
            !.accts = (a.by :> (Has(s, a.by) -- a.amount)) @@ (a.to :> (Has(s, a.to) ++ a.amount)) @@ s.accts]
Transfer(s, a) == IF Movable(s, a) THEN Result(Moved(s, a), TRUE, "none", <<>>) ELSE Fail(s)
TransferCall(s, a) ==
  IF ~Movable(s, a) \/ a.gas # "300" THEN Fail(s)
  ELSE Result([Moved(s, a) EXCEPT !.ops = Append(s.ops, [from |-> a.by, to |-> a.to, amount |-> a.amount, st |-> "called", unused |-> "none"])],
              TRUE, "none",
              <<[kind |-> "call", to |-> a.to, method |-> "ft_on_transfer", deposit |-> "0",
                 args |-> [sender_id |-> a.by, amount |-> a.amount, msg |-> a.msg]]>>)

(* The receiver's answer says how much it did not use; no sensible answer: everything. *)
Answer(s, a) ==
  IF ToInt(a.i) > Len(s.ops) \/ s.ops[ToInt(a.i)].st # "called" THEN Fail(s)
  ELSE LET i == ToInt(a.i) op == s.ops[i] IN
       LET good == a.good /\ op.to \notin Absent IN
       Result([s EXCEPT !.ops[i] = [op EXCEPT !.st = "answered",
                                       !.unused = IF good /\ IsAmount(a.val) THEN Min(op.amount, a.val) ELSE op.amount]],
              good, "none", <<>>)
(* What is unused goes back, as far as the receiver still has it; a sender that left has it burned. *)
Resolve(s, a) ==
  IF ToInt(a.i) > Len(s.ops) \/ s.ops[ToInt(a.i)].st # "answered" THEN Fail(s)
  ELSE LET i == ToInt(a.i) op == s.ops[i]
           back == Min(op.unused, Has(s, op.to))
           s1 == [s EXCEPT !.ops = Without(s.ops, i)]
       IN IF back = "0" THEN Result(s1, TRUE, op.amount, <<>>)
          ELSE IF Reg(s, op.from)
          THEN Result([s1 EXCEPT !.accts = (op.to :> (Has(s, op.to) -- back)) @@ (op.from :> (Has(s, op.from) ++ back)) @@ s.accts],
                      TRUE, op.amount -- back, <<>>)
          ELSE Result([s1 EXCEPT !.accts = Set(s, op.to, Has(s, op.to) -- back), !.supply = s.supply -- back], TRUE, op.amount, <<>>)

Balance == [total |-> MIN, available |-> "0"]
Register(s, a) ==
  LET u == IF a.who = "none" THEN a.by ELSE a.who
      back == IF Reg(s, u) THEN a.dep ELSE a.dep -- MIN
  IN IF BadAccount(u) \/ (~Reg(s, u) /\ a.dep \prec MIN) THEN Fail(s)
     ELSE Result([s EXCEPT !.accts = IF Reg(s, u) THEN s.accts ELSE Set(s, u, "0"), !.bal = s.bal ++ (a.dep -- back)],
                 TRUE, Balance, IF back = "0" THEN <<>> ELSE Pay(a.by, back))
StorageWithdraw(s, a) ==
  IF a.dep # "1" \/ ~Reg(s, a.by) \/ a.amount \notin {"none", "0"} THEN Fail(s)
  ELSE Result([s EXCEPT !.bal = s.bal ++ "1"], TRUE, Balance, <<>>)
Unregister(s, a) ==
  IF a.dep # "1" THEN Fail(s)
  ELSE IF ~Reg(s, a.by) THEN Result([s EXCEPT !.bal = s.bal ++ "1"], TRUE, FALSE, <<>>)
  ELSE IF Has(s, a.by) # "0" /\ a.force # "true" THEN Fail(s)
  ELSE Result([s EXCEPT !.bal = s.bal -- MIN, !.supply = s.supply -- Has(s, a.by),
                        !.accts = [u \in DOMAIN s.accts \ {a.by} |-> s.accts[u]]],
              TRUE, TRUE, Pay(a.by, MIN ++ "1"))

Apply(s, a) ==
  CASE a.act = "new" -> IF s.init \/ a.dep # "0" THEN Fail(s) ELSE Result([s EXCEPT !.init = TRUE], TRUE, "none", <<>>)
    [] a.act = "env_donate" -> Result([s EXCEPT !.bal = s.bal ++ a.amount], TRUE, "none", <<>>)
    [] ~s.init -> Fail(s)
    [] a.act = "ft_resolve_transfer" -> Fail(s)   \* only as the contract's own callback
    [] a.act = "near_deposit" -> Deposit(s, a)
    [] a.act = "near_withdraw" -> Withdraw(s, a)
    [] a.act = "ft_transfer" -> Transfer(s, a)
    [] a.act = "ft_transfer_call" -> TransferCall(s, a)
    [] a.act = "env_answer" -> Answer(s, a)
    [] a.act = "env_cb" -> Resolve(s, a)
    [] a.act = "storage_deposit" -> Register(s, a)
    [] a.act = "storage_withdraw" -> StorageWithdraw(s, a)
    [] a.act = "storage_unregister" -> Unregister(s, a)

SetOf(q) == {q[i] : i \in DOMAIN q}
Obs(s) ==
  IF ~s.init THEN [init |-> FALSE, bal |-> s.bal]
  ELSE [init |-> TRUE, bal |-> s.bal, supply |-> s.supply,
        held |-> [u \in SetOf(s.cfg.univ) |-> Has(s, u)],
        storage |-> [u \in SetOf(s.cfg.univ) \cap DOMAIN s.accts |-> Balance],
        bounds |-> [min |-> MIN, max |-> MIN], legacyMin |-> MIN, meta |-> Meta]

(***************************************************************************)
(* N01: backed one for one.                                                *)
(***************************************************************************)
InvSupply(s) == s.supply = SumF(s.accts) /\ \A u \in DOMAIN s.accts : IsAmount(s.accts[u])
InvBacked(s) == s.init => (s.supply ++ (MIN ** Z(Cardinality(DOMAIN s.accts)))) \preceq s.bal
Paid(r) == IF r.eff = <<>> \/ r.eff[1].kind # "transfer" THEN "0" ELSE r.eff[1].amount
Dep(a) == IF "dep" \in DOMAIN a THEN a.dep ELSE "0"
StepMint(s, a, r) ==
  /\ ~r.ok => r.s = s \/ a.act = "env_answer"
  /\ r.ok /\ a.act # "env_donate" => r.s.bal = (s.bal ++ Dep(a)) -- Paid(r)
  /\ s.supply \prec r.s.supply => a.act = "near_deposit"
  /\ r.s.supply \prec s.supply => a.act \in {"near_withdraw", "storage_unregister", "env_cb"}
  /\ r.ok /\ a.act = "near_deposit" => (r.s.supply -- s.supply) = (IF Reg(s, a.by) THEN a.dep ELSE a.dep -- MIN)
  /\ r.ok /\ a.act = "near_withdraw" => (s.supply -- r.s.supply) = a.amount /\ Paid(r) = a.amount ++ "1"
(***************************************************************************)
(* N02: nobody's balance changes but by their own doing, a transfer to     *)
(* them, or the resolution of a transfer they were part of.                *)
(***************************************************************************)
StepTransfers(s, a, r) ==
  /\ \A u \in DOMAIN s.accts \cap DOMAIN r.s.accts :
       /\ Has(s, u) \prec Has(r.s, u) => \/ (a.act = "near_deposit" /\ a.by = u)
                                         \/ (a.act \in {"ft_transfer", "ft_transfer_call"} /\ a.to = u)
                                         \/ (a.act = "env_cb" /\ s.ops[ToInt(a.i)].from = u)
       /\ Has(r.s, u) \prec Has(s, u) => \/ (a.act \in {"near_withdraw", "ft_transfer", "ft_transfer_call"} /\ a.by = u)
                                         \/ (a.act = "env_cb" /\ s.ops[ToInt(a.i)].to = u)
  /\ a.act = "env_cb" /\ r.ok =>
       LET op == s.ops[ToInt(a.i)] gone == Has(s, op.to) -- Has(r.s, op.to) IN
       gone \preceq op.amount /\ gone \preceq op.unused /\ (Reg(s, op.from) => r.ret = op.amount -- gone /\ Has(r.s, op.from) = Has(s, op.from) ++ gone)
(* N03 *)
StepRegistration(s, a, r) ==
  /\ \A u \in DOMAIN r.s.accts \ DOMAIN s.accts :
       \/ a.act = "near_deposit" /\ a.by = u /\ MIN \preceq a.dep
       \/ a.act = "storage_deposit" /\ MIN \preceq a.dep /\ u = (IF a.who = "none" THEN a.by ELSE a.who) /\ Has(r.s, u) = "0"
  /\ \A u \in DOMAIN s.accts \ DOMAIN r.s.accts :
       a.act = "storage_unregister" /\ a.by = u /\ a.dep = "1" /\ (s.accts[u] = "0" \/ a.force = "true") /\ Paid(r) = MIN ++ "1"

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(s, a, d, r) ==
  LET b == UNION {
    When((a.act = "new" /\ s.init) \/ (~s.init /\ d \cap {"ok", "init"} # {}) \/ a.act = "ft_resolve_transfer", {"C01"}),
    When(s.init /\ a.act \in {"near_deposit", "near_withdraw"}, {"N01"}),
    When(d \cap {"supply", "bal", "held"} # {}, {"N01"}),
    When(a.act \in {"ft_transfer", "ft_transfer_call", "env_answer", "env_cb", "ft_resolve_transfer"} \/ d \cap {"meta"} # {}, {"N02"}),
    When(a.act \in {"storage_deposit", "storage_withdraw", "storage_unregister"} \/ d \cap {"storage", "bounds", "legacyMin"} # {}, {"N03"}),
    When(a.act = "near_deposit" /\ ~Reg(s, a.by), {"N03"}) }
  IN IF b = {} THEN {"N01", "N02"} ELSE b
=============================================================================
