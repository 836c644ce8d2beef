--------------------------- MODULE LockupFactory ---------------------------
(***************************************************************************)
(* The lockup factory, together with the lockups it creates (their own     *)
(* specification, instantiated).  What it sends off waits in ops, and is   *)
(* carried out in any order: create (the batch that makes, funds and       *)
(* initialises a lockup account), cb (the factory hearing how that went)   *)
(* and refund (the deposit on its way back).                               *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

L == INSTANCE Lockup

MIN_DEPOSIT == "3500000000000000000000000"
TRANSFERS_STARTED == "1602614338293769340"    \* 13 October 2020, when transfers were voted in

(* cfg: [self, balance, time, sched and salt (asked about), owners] *)
Initial(cfg) ==
  [cfg |-> cfg, init |-> FALSE, wl |-> "none", found |-> "none", bal |-> cfg.balance, now |-> cfg.time, ops |-> <<>>, locks |-> <<>>]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
BadAccount(x) == ~IsAccountId(x)
Bad64(x) == x # "none" /\ ~(x \preceq U64MAX)

LockupId(s, owner) == Concat(Prefix(Sha256(owner), 40), Concat(".", s.cfg.self))

New(s, a) ==
  IF s.init \/ a.dep # "0" \/ BadAccount(a.wl) \/ BadAccount(a.found) \/ StrLen(s.cfg.self) > 23 THEN Fail(s)
  ELSE Result([s EXCEPT !.init = TRUE, !.wl = a.wl, !.found = a.found], TRUE, "none", <<>>)

(* The terms of the new lockup: those requested, and those fixed by the factory. *)
Terms(s, a) ==
  [act |-> "new", by |-> s.cfg.self, dep |-> "0", valid |-> TRUE, owner |-> a.owner,
   wl |-> IF a.wl = "none" THEN s.wl ELSE a.wl, found |-> IF a.vesting.kind = "none" THEN "none" ELSE s.found,
   dur |-> a.dur, rel |-> a.rel, ts |-> a.ts, on |-> TRUE, xts |-> TRANSFERS_STARTED, poll |-> "none", vesting |-> a.vesting]

Create(s, a) ==
  LET id == LockupId(s, a.owner)
      t == Terms(s, a)
  IN IF \/ ~s.init \/ a.dep \prec MIN_DEPOSIT \/ BadAccount(a.owner) \/ (a.wl # "none" /\ BadAccount(a.wl))
        \/ Bad64(a.dur) \/ Bad64(a.rel) \/ Bad64(a.ts)
     THEN Fail(s)
     ELSE Result([s EXCEPT !.ops = Append(s.ops, [kind |-> "create", id |-> id, dep |-> a.dep, by |-> a.by, terms |-> t])], TRUE, "none",
                 <<[kind |-> "creation", to |-> id, code |-> "lockup", amount |-> a.dep, method |-> "new", deposit |-> "0",
                    args |-> [owner |-> t.owner, wl |-> t.wl, found |-> t.found, dur |-> t.dur, rel |-> t.rel, ts |-> t.ts, xts |-> t.xts, vesting |-> t.vesting]]>>)

Execute(s, a) ==
  IF ToInt(a.i) > Len(s.ops) THEN Fail(s)
  ELSE LET i == ToInt(a.i)
           op == s.ops[i]
           s1 == [s EXCEPT !.ops = Without(s.ops, i)]
       IN CASE op.kind = "create" ->
                 LET l == L!Apply(L!Initial([balance |-> op.dep, time |-> s.now, sched |-> s.cfg.sched]), op.terms)
                     good == a.good /\ op.id \notin DOMAIN s.locks /\ l.ok
                     s2 == [s1 EXCEPT !.ops = Append(s1.ops, [kind |-> "cb", id |-> op.id, dep |-> op.dep, by |-> op.by, good |-> good])]
                 IN Result(IF good THEN [s2 EXCEPT !.locks = (op.id :> l.s) @@ s.locks] ELSE [s2 EXCEPT !.bal = s.bal ++ op.dep], good, "none", <<>>)
            [] op.kind = "cb" ->
                 IF op.good THEN Result(s1, TRUE, TRUE, <<>>)
                 ELSE Result([s1 EXCEPT !.bal = s.bal -- op.dep, !.ops = Append(s1.ops, [kind |-> "refund", dep |-> op.dep])], TRUE, FALSE,
                             <<[kind |-> "transfer", to |-> op.by, amount |-> op.dep]>>)
            [] OTHER -> Result(s1, TRUE, "none", <<>>)

Time(s, a) ==
  Result([s EXCEPT !.now = s.now ++ a.d, !.locks = [x \in DOMAIN s.locks |-> L!Apply(s.locks[x], a).s]], TRUE, "none", <<>>)

Apply(s, a) ==
  CASE a.act = "new" -> New(s, a)
    [] a.act = "create" -> Create(s, a)
    [] a.act = "on_lockup_create" -> Fail(s)
    [] a.act = "env_exec" -> Execute(s, a)
    [] a.act = "env_time" -> Time(s, a)

Obs(s) ==
  IF ~s.init THEN [init |-> FALSE, bal |-> s.bal]
  ELSE [init |-> TRUE, bal |-> s.bal, min |-> MIN_DEPOSIT, found |-> s.found, master |-> s.cfg.self,
        locks |-> [x \in DOMAIN s.locks |-> L!Obs(s.locks[x])]]

(***************************************************************************)
(* F02.                                                                    *)
(***************************************************************************)
InvMoney(s) ==
  s.bal = s.cfg.balance ++ SumF([i \in {j \in DOMAIN s.ops : s.ops[j].kind = "cb" /\ ~s.ops[j].good} |-> s.ops[i].dep])
(* Every lockup is funded and has its owner's account name; the foundation takes part exactly when there is vesting;
   its release starts no earlier than transfers did. *)
InvLocks(s) ==
  \A x \in DOMAIN s.locks :
    LET l == s.locks[x] IN
    /\ x = LockupId(s, l.owner) /\ MIN_DEPOSIT \preceq l.amount /\ l.amount = l.bal
    /\ l.found = (IF l.vest.kind = "none" THEN "none" ELSE s.found)
    /\ l.on /\ TRANSFERS_STARTED \preceq L!ReleaseStart(l)
    /\ l.vest.kind = "schedule" => L!ValidSchedule(l.vest.sched)
    /\ L!Locked(l) \preceq l.bal
StepTerms(s, a, r) ==
  /\ \A x \in DOMAIN s.locks : x \in DOMAIN r.s.locks /\ (a.act # "env_time" => r.s.locks[x] = s.locks[x])
  /\ \A x \in DOMAIN r.s.locks \ DOMAIN s.locks :
       LET t == s.ops[ToInt(a.i)].terms l == r.s.locks[x] IN
       <<l.owner, l.wl, l.found, l.dur, l.rel, l.ts, l.xts, l.vest, l.bal>> = <<t.owner, t.wl, t.found, t.dur, t.rel, t.ts, t.xts, t.vesting, s.ops[ToInt(a.i)].dep>>
StepEnds(s, a, r) ==
  a.act = "env_exec" /\ ToInt(a.i) \in DOMAIN s.ops /\ s.ops[ToInt(a.i)].kind = "cb" =>
    LET op == s.ops[ToInt(a.i)] IN
    IF op.good THEN r.eff = <<>> /\ r.ret = TRUE
    ELSE r.ret = FALSE /\ r.eff = <<[kind |-> "transfer", to |-> op.by, amount |-> op.dep]>>

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) ==
  LET b == UNION { When(st.init /\ a.act \notin {"new", "on_lockup_create"}, {"F02"}),
                   When(~st.init /\ a.act = "new", {"F02"}),
                   When(a.act \in {"new", "on_lockup_create"} \/ ~st.init, {"C01"}) }
  IN IF d \cap {"locks", "bal", "found", "master", "min"} # {} \/ b = {} \/ (a.act = "on_lockup_create" /\ st.init) THEN b \cup {"F02"} ELSE b
=============================================================================
