------------------------------- MODULE Multisig -------------------------------
(***************************************************************************)
(* The K-of-N multisig contracts: version "1" (multisig, whose members are *)
(* the access keys of the account) and version "2" (multisig2, with an     *)
(* explicit set of members, keys or accounts).                             *)
(*                                                                         *)
(* A member is named "k:<key>" or "a:<account>".  A call has a predecessor *)
(* (by) and the key that signed its transaction (pk); with by = Self it is *)
(* the account's own transaction, which the protocol admits only when the  *)
(* key is on the account and allows the method.                            *)
(*                                                                         *)
(* Executed requests leave as batches (ops, in order); batches to the      *)
(* account itself are really carried out (keys, calls back into the        *)
(* contract), and are atomic.                                              *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

Self == "msig.near"
COOLDOWN == "900000000000"
TGAS == "1000000000000"
CALLGAS == "2000000000000"            \* flat price of a call (emulator)
MAXGAS == "300000000000000"
OwnMethods == {"add_request", "delete_request", "confirm", "add_request_and_confirm"}

FullKey == [kind |-> "full"]
CallKey(rcv, allow, ms) == [kind |-> "call", receiver |-> rcv, allowance |-> allow, methods |-> ms]

(* cfg: [v, balance, time, keys: <<[key, full]>>, univ: <<member>>] *)
Initial(cfg) ==
  [ cfg |-> cfg, init |-> FALSE, K |-> "0", nonce |-> "0", limit |-> "12", members |-> {},
    reqs |-> <<>>, cnt |-> <<>>, bal |-> cfg.balance, now |-> cfg.time, ops |-> <<>>,
    keys |-> [k \in {cfg.keys[i].key : i \in DOMAIN cfg.keys} |->
                IF \E i \in DOMAIN cfg.keys : cfg.keys[i].key = k /\ cfg.keys[i].full THEN FullKey
                ELSE CallKey(Self, "none", OwnMethods)] ]

V(s) == s.cfg.v
Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Ok(s) == Result(s, TRUE, "none", <<>>)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
SetOf(q) == {q[i] : i \in DOMAIN q}
Sum(q, f(_)) == SumF([i \in DOMAIN q |-> f(q[i])])

(* What does not parse as an account id or as a public key. *)
BadAccount(x) == ~IsAccountId(x)
BadKey(x) == x = "bad"
KeyOf(m) == m.key
Id(m) == IF m.kind = "key" THEN Concat("k:", m.key) ELSE Concat("a:", m.account)
BadMember(m) == IF m.kind = "key" THEN BadKey(m.key) ELSE BadAccount(m.account)

(***************************************************************************)
(* Who is calling.                                                         *)
(***************************************************************************)
Caller(s, a) ==
  IF V(s) = "1" THEN IF a.by = Self THEN Concat("k:", a.pk) ELSE "none"
  ELSE LET m == IF a.by = Self THEN Concat("k:", a.pk) ELSE Concat("a:", a.by) IN
       IF m \in s.members THEN m ELSE "none"

(* The account's own transactions need one of its keys. *)
Access(s, a) ==
  a.by # Self \/ /\ a.pk \in DOMAIN s.keys
                 /\ LET k == s.keys[a.pk] IN
                    k.kind = "full" \/ /\ k.receiver = Self /\ a.dep = "0"
                                       /\ (k.methods = {} \/ a.act \in k.methods)

(***************************************************************************)
(* Requests.                                                               *)
(***************************************************************************)
SelfOnly == {"AddKey", "DeleteKey", "AddMember", "DeleteMember"}
Settings == {"SetNumConfirmations", "SetActiveRequestsLimit"}
Kinds(v) == {"Transfer", "CreateAccount", "DeployContract", "AddKey", "FunctionCall"} \cup Settings
            \cup IF v = "1" THEN {"DeleteKey"} ELSE {"AddMember", "DeleteMember"}

Parses(v, x) ==
  /\ x.type \in Kinds(v)
  /\ x.type \in {"AddKey", "DeleteKey"} => ~BadKey(x.public_key)
  /\ v = "2" => /\ x.type = "AddKey" /\ x.permission.kind = "call" => ~BadAccount(x.permission.receiver_id)
                /\ x.type \in {"AddMember", "DeleteMember"} => ~BadMember(x.member)
WellFormed(v, q) == /\ v = "2" => ~BadAccount(q.receiver_id)
                    /\ \A i \in DOMAIN q.actions : Parses(v, q.actions[i])

Carries(x) == CASE x.type = "Transfer" -> x.amount [] x.type = "FunctionCall" -> x.deposit [] OTHER -> "0"
Gas(x) == IF x.type = "FunctionCall" THEN x.gas ELSE "0"

(* The effect of one action of a request to rcv, as part of the batch. *)
Effect(v, rcv, x) ==
  CASE x.type = "Transfer" -> <<[kind |-> "transfer", to |-> rcv, amount |-> x.amount]>>
    [] x.type = "CreateAccount" -> <<[kind |-> "create", to |-> rcv]>>
    [] x.type = "DeployContract" -> <<[kind |-> "deploy", to |-> rcv, code |-> x.code]>>
    [] x.type = "AddKey" ->
         IF x.permission.kind = "full" THEN <<[kind |-> "add_full_key", to |-> rcv, key |-> x.public_key]>>
         ELSE <<[kind |-> "add_call_key", to |-> rcv, key |-> x.public_key, receiver |-> x.permission.receiver_id,
                 methods |-> SetOf(x.permission.method_names),
                 allowance |-> IF x.permission.allowance = "0" THEN "none" ELSE x.permission.allowance]>>
    [] x.type = "DeleteKey" -> <<[kind |-> "delete_key", to |-> rcv, key |-> x.public_key]>>
    [] x.type = "AddMember" ->
         IF x.member.kind = "key"
         THEN <<[kind |-> "add_call_key", to |-> rcv, key |-> x.member.key, receiver |-> Self, methods |-> OwnMethods, allowance |-> "none"]>>
         ELSE <<>>
    [] x.type = "DeleteMember" ->
         IF x.member.kind = "key" THEN <<[kind |-> "delete_key", to |-> rcv, key |-> x.member.key]>> ELSE <<>>
    [] x.type = "FunctionCall" ->
         <<[kind |-> "call", to |-> rcv, method |-> x.method_name, args |-> x.args, deposit |-> x.deposit, gas |-> x.gas]>>
    [] OTHER -> <<>>

(* Requests added by member m disappear, and with them their confirmations. *)
Forget(s, m) == [s EXCEPT !.reqs = Drop(s.reqs, {i \in DOMAIN s.reqs : s.reqs[i].by = m}), !.cnt = Drop(s.cnt, {m})]

(* The contract's own state after the actions of a request; "no" when it refuses. *)
RECURSIVE Perform(_, _, _)
Perform(s, q, i) ==
  IF i > Len(q.actions) THEN <<s>>
  ELSE LET x == q.actions[i] IN
       IF x.type \in SelfOnly \cup Settings /\ q.receiver_id # Self THEN <<>>
       ELSE IF x.type \in Settings /\ Len(q.actions) # 1 THEN <<>>
       ELSE IF x.type = "FunctionCall" /\ x.method_name = "" THEN <<>>
       ELSE IF x.type = "AddKey" /\ x.permission.kind = "call" /\ BadAccount(x.permission.receiver_id) THEN <<>>
       ELSE CASE x.type = "SetNumConfirmations" -> <<[s EXCEPT !.K = x.num_confirmations]>>
              [] x.type = "SetActiveRequestsLimit" -> <<[s EXCEPT !.limit = x.active_requests_limit]>>
              [] x.type = "DeleteKey" -> Perform(Forget(s, Concat("k:", x.public_key)), q, i + 1)
              [] x.type = "AddMember" -> Perform([s EXCEPT !.members = s.members \cup {Id(x.member)}], q, i + 1)
              [] x.type = "DeleteMember" ->
                   IF (Z(Cardinality(s.members)) -- "1") \prec s.K THEN <<>>
                   ELSE Perform([Forget(s, Id(x.member)) EXCEPT !.members = s.members \ {Id(x.member)}], q, i + 1)
              [] OTHER -> Perform(s, q, i + 1)

RECURSIVE Effects(_, _, _)
Effects(v, q, i) == IF i > Len(q.actions) THEN <<>> ELSE Effect(v, q.receiver_id, q.actions[i]) \o Effects(v, q, i + 1)

Execute(s, q, pk, gas) ==
  LET p == Perform(s, q, 1)
      out == Sum(q.actions, Carries)
      eff == Effects(V(s), q, 1)
  IN IF p = <<>> \/ BadAccount(q.receiver_id) THEN Fail(s)
     ELSE IF s.bal \prec out \/ (gas -- CALLGAS) \prec Sum(q.actions, Gas) THEN Fail(s)
     ELSE Result([p[1] EXCEPT !.bal = s.bal -- out,
                              !.ops = IF eff = <<>> THEN s.ops ELSE Append(s.ops, [to |-> q.receiver_id, eff |-> eff, out |-> out, pk |-> pk])],
                 TRUE, IF \E i \in DOMAIN q.actions : q.actions[i].type \in Settings THEN TRUE ELSE "none", eff)

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
(* v1: a.K; v2: a.members (in order) and a.K.  Keys of key members are added in one batch. *)
New(s, a) ==
  IF s.init \/ a.dep # "0" THEN Fail(s)
  ELSE IF V(s) = "1" THEN Ok([s EXCEPT !.init = TRUE, !.K = a.K])
  ELSE IF (\E i \in DOMAIN a.members : BadMember(a.members[i])) \/ Z(Len(a.members)) \prec a.K THEN Fail(s)
  ELSE LET eff == Effects("2", [receiver_id |-> Self, actions |-> [i \in DOMAIN a.members |-> [type |-> "AddMember", member |-> a.members[i]]]], 1)
       IN Result([s EXCEPT !.init = TRUE, !.K = a.K, !.members = {Id(a.members[i]) : i \in DOMAIN a.members},
                           !.ops = IF eff = <<>> THEN s.ops ELSE Append(s.ops, [to |-> Self, eff |-> eff, out |-> "0", pk |-> a.pk])],
                 TRUE, "none", eff)

Add1(s, a) ==     \* the state after adding, or <<>>
  LET m == Caller(s, a) n == Get(s.cnt, m, "0") ++ "1" IN
  IF m = "none" \/ ~WellFormed(V(s), a.request) \/ s.limit \prec n THEN <<>>
  ELSE <<[s EXCEPT !.cnt = Put(s.cnt, m, n), !.nonce = s.nonce ++ "1",
                   !.reqs = Put(s.reqs, s.nonce, [request |-> a.request, by |-> m, added |-> s.now, conf |-> {}])]>>

Remove(s, i) ==
  LET m == s.reqs[i].by IN
  [s EXCEPT !.reqs = Drop(s.reqs, {i}), !.cnt = Put(s.cnt, m, SatSub(Get(s.cnt, m, "0"), "1"))]

Confirm1(s, a, i) ==
  LET m == Caller(s, a) IN
  IF m = "none" \/ i \notin DOMAIN s.reqs THEN Fail(s)
  ELSE LET r == s.reqs[i] IN
       IF m \in r.conf THEN Fail(s)
       ELSE IF s.K \preceq Z(Cardinality(r.conf) + 1)
            THEN LET x == Execute(Remove(s, i), r.request, a.pk, a.gas) IN IF x.ok THEN x ELSE Fail(s)
            ELSE Result([s EXCEPT !.reqs[i].conf = r.conf \cup {m}], TRUE, TRUE, <<>>)

(* A call that reached the contract (a.gas attached). *)
Do(s, a) ==
  IF ~s.init \/ a.dep # "0" \/ a.gas \prec CALLGAS THEN Fail(s)
  ELSE CASE a.act = "add_request" ->
              LET t == Add1(s, a) IN IF t = <<>> THEN Fail(s) ELSE Result(t[1], TRUE, s.nonce, <<>>)
         [] a.act = "add_request_and_confirm" ->
              LET t == Add1(s, a) IN
              IF t = <<>> THEN Fail(s)
              ELSE LET c == Confirm1(t[1], a, s.nonce) IN
                   IF c.ok THEN Result(c.s, TRUE, s.nonce, c.eff) ELSE Fail(s)
         [] a.act = "confirm" -> Confirm1(s, a, a.id)
         [] a.act = "delete_request" ->
              IF Caller(s, a) = "none" \/ a.id \notin DOMAIN s.reqs THEN Fail(s)
              ELSE IF s.now \preceq (s.reqs[a.id].added ++ COOLDOWN) THEN Fail(s)
              ELSE Result(Remove(s, a.id), TRUE, IF V(s) = "1" THEN s.reqs[a.id].request ELSE "none", <<>>)
         [] OTHER -> Fail(s)

Call(s, a) ==
  LET b == [x \in (DOMAIN a) \cup {"gas"} |-> IF x = "gas" THEN MAXGAS ELSE a[x]] IN
  IF ~Access(s, a) THEN Fail(s) ELSE IF a.act = "new" THEN New(s, b) ELSE Do(s, b)

(***************************************************************************)
(* The environment executes batch a.i (a.good: how it ends elsewhere).     *)
(***************************************************************************)
Inner(op, e) == [x \in (DOMAIN e.args) \cup {"act", "by", "pk", "dep", "gas", "id"} |->
                   CASE x = "act" -> e.method [] x = "by" -> Self [] x = "pk" -> op.pk [] x = "dep" -> e.deposit
                     [] x = "gas" -> e.gas [] x = "id" -> Get(e.args, "request_id", "none") [] OTHER -> e.args[x]]
RECURSIVE Batch(_, _, _, _, _)
Batch(s, op, i, ret, eff) ==
  IF i > Len(op.eff) THEN Result(s, TRUE, ret, eff)
  ELSE LET e == op.eff[i] IN
       CASE e.kind = "transfer" -> Batch([s EXCEPT !.bal = s.bal ++ e.amount], op, i + 1, "none", eff)
         [] e.kind = "add_full_key" -> IF e.key \in DOMAIN s.keys THEN Fail(s)
                                       ELSE Batch([s EXCEPT !.keys = Put(s.keys, e.key, FullKey)], op, i + 1, "none", eff)
         [] e.kind = "add_call_key" -> IF e.key \in DOMAIN s.keys THEN Fail(s)
                                       ELSE Batch([s EXCEPT !.keys = Put(s.keys, e.key, CallKey(e.receiver, e.allowance, e.methods))], op, i + 1, "none", eff)
         [] e.kind = "delete_key" -> IF e.key \notin DOMAIN s.keys THEN Fail(s)
                                     ELSE Batch([s EXCEPT !.keys = Drop(s.keys, {e.key})], op, i + 1, "none", eff)
         [] e.kind = "call" ->
              LET r == Do([s EXCEPT !.bal = s.bal ++ e.deposit], Inner(op, e)) IN
              IF r.ok THEN Batch(r.s, op, i + 1, r.ret, eff \o r.eff) ELSE Fail(s)
         [] OTHER -> Fail(s)

Exec(s, a) ==
  LET i == ToInt(a.i) IN
  IF i \notin DOMAIN s.ops THEN Fail(s)
  ELSE LET op == s.ops[i]
           t == [s EXCEPT !.ops = Without(s.ops, i)]
           refund == [t EXCEPT !.bal = s.bal ++ op.out]
       IN IF op.to # Self THEN IF a.good THEN Ok(t) ELSE Fail(refund)
          ELSE LET r == Batch(t, op, 1, "none", <<>>) IN IF r.ok THEN r ELSE Fail(refund)

Apply(s, a) ==
  CASE a.act = "env_exec" -> Exec(s, a)
    [] a.act = "env_time" -> Ok([s EXCEPT !.now = s.now ++ a.d])
    [] OTHER -> Call(s, a)

Obs(s) ==
  IF ~s.init THEN [init |-> FALSE, bal |-> s.bal, keys |-> s.keys]
  ELSE [init |-> TRUE, bal |-> s.bal, keys |-> s.keys, left |-> {}, K |-> s.K, nonce |-> s.nonce, members |-> s.members,
        cnt |-> [m \in SetOf(s.cfg.univ) |-> Get(s.cnt, m, "0")], ids |-> DOMAIN s.reqs,
        reqs |-> [i \in DOMAIN s.reqs |-> [request |-> s.reqs[i].request, conf |-> s.reqs[i].conf]]]

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
Calls == {"add_request", "add_request_and_confirm", "confirm", "delete_request", "new"}
(* M01, Q01: something happens outside only as the last confirmation of a pending request,
   by K distinct members, and is exactly what the request says; then the request is gone. *)
StepExecute(s, a, r) ==
  s.init /\ r.eff # <<>> /\ a.act \in Calls =>
    LET i == IF a.act = "confirm" THEN a.id ELSE s.nonce
        q == IF a.act = "confirm" THEN s.reqs[i].request ELSE a.request
        c == IF a.act = "confirm" THEN s.reqs[i].conf ELSE {}
    IN /\ a.act \in {"confirm", "add_request_and_confirm"}
       /\ Caller(s, a) \notin c \cup {"none"}
       /\ s.K \preceq Z(Cardinality(c) + 1)
       /\ r.eff = Effects(V(s), q, 1)
       /\ i \notin DOMAIN r.s.reqs
StepConfirm(s, a, r) ==
  \A i \in DOMAIN s.reqs \cap DOMAIN r.s.reqs :
    /\ s.reqs[i].request = r.s.reqs[i].request /\ s.reqs[i].by = r.s.reqs[i].by /\ s.reqs[i].added = r.s.reqs[i].added
    /\ s.reqs[i].conf \subseteq r.s.reqs[i].conf
    /\ a.act \in Calls /\ s.reqs[i].conf # r.s.reqs[i].conf =>
         a.act = "confirm" /\ a.id = i /\ r.s.reqs[i].conf = s.reqs[i].conf \cup {Caller(s, a)} /\ Caller(s, a) # "none"
(* M02, Q02 *)
InvCount(s) == \A m \in DOMAIN s.cnt : s.cnt[m] = Z(Cardinality({i \in DOMAIN s.reqs : s.reqs[i].by = m}))
InvCounted(s) == \A i \in DOMAIN s.reqs : s.reqs[i].by \in DOMAIN s.cnt /\ i \prec s.nonce
StepLimit(s, a, r) == \A m \in DOMAIN r.s.cnt : Get(s.cnt, m, "0") \prec r.s.cnt[m] => r.s.cnt[m] \preceq s.limit
StepNonce(s, a, r) == s.nonce \preceq r.s.nonce /\ \A i \in DOMAIN r.s.reqs \ DOMAIN s.reqs : s.nonce \preceq i
StepRemoved(s, a, r) ==
  a.act = "delete_request" /\ r.ok => (s.reqs[a.id].added ++ COOLDOWN) \prec s.now /\ Caller(s, a) # "none"
(* Configuration changes only by executing a request to the contract itself. *)
StepConfig(s, a, r) ==
  s.init /\ <<s.K, s.limit, s.members>> # <<r.s.K, r.s.limit, r.s.members>> =>
    \/ a.act = "env_exec"     \* a call back into the contract
    \/ a.act = "confirm" /\ s.reqs[a.id].request.receiver_id = Self /\ s.K \preceq Z(Cardinality(s.reqs[a.id].conf) + 1)
    \/ a.act = "add_request_and_confirm" /\ a.request.receiver_id = Self /\ s.K \preceq "1"
StepKeys(s, a, r) == s.keys # r.s.keys => a.act = "env_exec" /\ s.ops[ToInt(a.i)].to = Self
StepMembers(s, a, r) ==
  s.init => /\ r.s.members # s.members /\ ~(s.members \subseteq r.s.members) => r.s.K \preceq Z(Cardinality(r.s.members))
            /\ \A m \in s.members \ r.s.members : \A i \in DOMAIN r.s.reqs : r.s.reqs[i].by = m => i \notin DOMAIN s.reqs
StepForeign(s, a, r) == s.init /\ a.act \in Calls /\ r.ok => Caller(s, a) # "none" /\ a.act # "new"

(* The actions of an executed request happen in their order. *)
EffOrdered == TRUE

(***************************************************************************)
(* Which properties a divergence concerns.                                 *)
(***************************************************************************)
Blame(st, a, d, r) ==
  LET P(n) == IF V(st) = "1" THEN Concat("M0", n) ELSE Concat("Q0", n)
      some(x) == d \cap x # {}
      last1 == a.act \in {"confirm", "add_request_and_confirm"}
      foreign == a.act \in Calls \ {"new"} /\ st.init /\ Caller(st, a) = "none"
      b == UNION {
        When(\/ last1
             \/ some({"reqs"}) /\ a.act # "env_exec"
             \/ foreign /\ V(st) = "2"
             \/ a.act = "env_exec" /\ some({"eff", "ret", "bal"}), {P("1")}),
        When(\/ a.act \in {"add_request", "delete_request"} \/ foreign \/ a.act = "env_exec"
             \/ a.act = "new" /\ ~st.init
             \/ last1 /\ some({"cnt", "K", "members", "keys", "nonce", "ids", "left"})
             \/ last1 /\ some({"ok"})
             \/ last1 /\ some({"eff"}) /\ V(st) = "2"
             \/ a.act = "add_request_and_confirm" /\ some({"ret"})
             \/ some({"cnt", "nonce", "K", "members", "keys"}), {P("2")}),
        When((a.act = "new" /\ st.init) \/ (~st.init /\ some({"ok", "init"})), {"C01"}) }
  IN IF b = {} THEN {P("1"), P("2")} ELSE b
=============================================================================
