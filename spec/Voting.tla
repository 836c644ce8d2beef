-------------------------------- MODULE Voting --------------------------------
(***************************************************************************)
(* The voting contract: validators vote with their stake until the yes     *)
(* votes hold more than two thirds of the total stake.                     *)
(* stakes: the validators' current stakes; they change with epochs.        *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

(* cfg: [time, epoch, stakes] *)
Initial(cfg) == [ init |-> FALSE, votes |-> <<>>, total |-> "0", result |-> "none", last |-> "0",
                  epoch |-> cfg.epoch, now |-> cfg.time, stakes |-> cfg.stakes ]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
Ok(s) == Result(s, TRUE, "none", <<>>)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

Stake(s, v) == Get(s.stakes, v, "0")
TotalStake(s) == SumF(s.stakes)
Passed(s) == ("2" ** TotalStake(s)) \prec ("3" ** s.total)
Check(s) == IF Passed(s) THEN [s EXCEPT !.result = s.now] ELSE s

(* All recorded votes follow the current stakes; once per epoch. *)
Refresh(s) ==
  IF s.epoch = s.last THEN s
  ELSE LET v == [x \in {y \in DOMAIN s.votes : "0" \prec Stake(s, y)} |-> Stake(s, x)] IN
       Check([s EXCEPT !.votes = v, !.total = SumF(v), !.last = s.epoch])

Open(s, a) == s.init /\ a.dep = "0" /\ s.result = "none"
Ping(s, a) == IF ~Open(s, a) THEN Fail(s) ELSE Ok(Refresh(s))
Vote(s, a) ==
  IF ~Open(s, a) THEN Fail(s)
  ELSE LET t == Refresh(s) IN
       IF t.result # "none" THEN Ok(t)
       ELSE IF ~a.yes
            THEN Ok([t EXCEPT !.votes = Drop(t.votes, a.by), !.total = t.total -- Get(t.votes, a.by, "0")])
       ELSE IF Stake(s, a.by) = "0" THEN Fail(s)
       ELSE Ok(Check([t EXCEPT !.votes = Put(t.votes, a.by, Stake(s, a.by)),
                               !.total = (t.total ++ Stake(s, a.by)) -- Get(t.votes, a.by, "0")]))

Apply(s, a) ==
  CASE a.act = "new" -> IF s.init \/ a.dep # "0" THEN Fail(s) ELSE Ok([s EXCEPT !.init = TRUE])
    [] a.act = "ping" -> Ping(s, a)
    [] a.act = "vote" -> Vote(s, a)
    [] a.act = "env_epoch" -> Ok([s EXCEPT !.epoch = s.epoch ++ a.n, !.stakes = a.stakes])
    [] a.act = "env_time" -> Ok([s EXCEPT !.now = s.now ++ a.d])

Obs(s) == IF ~s.init THEN [init |-> FALSE]
          ELSE [init |-> TRUE, result |-> s.result, voted |-> <<s.total, TotalStake(s)>>, votes |-> s.votes]

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
InvSum(s) == s.total = SumF(s.votes) /\ \A v \in DOMAIN s.votes : "0" \prec s.votes[v]
InvCurrent(s) == s.last = s.epoch => \A v \in DOMAIN s.votes : s.votes[v] = Stake(s, v)
Acts1 == {"vote", "ping"}
StepResult(s, a, r) ==
  /\ s.result # "none" => r.s.result = s.result /\ r.s.votes = s.votes /\ (a.act \in Acts1 => ~r.ok)
  /\ s.result = "none" /\ r.s.result # "none" => a.act \in Acts1 /\ r.s.result = s.now /\ Passed(r.s)
  (* "exactly at the first moment": after a vote or ping the poll is open only if it has not passed *)
  /\ a.act \in Acts1 /\ r.ok => (r.s.result # "none" <=> Passed(r.s))
StepVotes(s, a, r) ==
  s.init /\ s.votes # r.s.votes =>
    /\ a.act \in Acts1 /\ r.ok
    /\ \A v \in DOMAIN s.votes \cup DOMAIN r.s.votes :
         Get(s.votes, v, "0") # Get(r.s.votes, v, "0") =>
            \/ s.last # s.epoch /\ Get(r.s.votes, v, "0") = Stake(s, v)
            \/ a.act = "vote" /\ a.by = v /\ Get(r.s.votes, v, "0") = IF a.yes THEN Stake(s, v) ELSE "0"

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(st, a, d, r) ==
  LET some(x) == d \cap x # {}
      b == UNION { When(some({"result", "ok", "votes", "voted"}) /\ (~st.init \/ a.act # "new"), {"V01"}),
                   When(some({"votes", "voted"}) \/ (a.act = "vote" /\ some({"ok"})) \/ (a.act = "ping" /\ some({"ok"})), {"V02"}),
                   When((a.act = "new" /\ st.init) \/ (~st.init /\ some({"ok", "init"})), {"C01"}) }
  IN IF b = {} THEN {"V01", "V02"} ELSE b
=============================================================================
