----------------------------- MODULE StateManip -----------------------------
(***************************************************************************)
(* The contract that edits an account's raw storage.  Keys and values are  *)
(* bytes, written as the (canonical) base64 text that the calls carry.     *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

(* cfg: [build, balance, storage: sequence of <<key, value>>] *)
Latest(es, k) == LET is == {i \in DOMAIN es : es[i][1] = k} IN es[CHOOSE i \in is : \A j \in is : j <= i][2]
Written(st, es) ==
  LET ks == {es[i][1] : i \in DOMAIN es} IN
  [k \in DOMAIN st \cup ks |-> IF k \in ks THEN Latest(es, k) ELSE st[k]]
Initial(cfg) == [cfg |-> cfg, bal |-> cfg.balance, storage |-> Written(<<>>, cfg.storage)]

Result(s, ok, ret, eff) == [s |-> s, ok |-> ok, ret |-> ret, eff |-> eff]
Fail(s) == Result(s, FALSE, "none", <<>>)
(* Not the base64 of anything. *)
Bad(x) == x \in {"!!!!", "A", "AB==", "AA=A", "====", " AA=="}
Offers(s, m) == s.cfg.build = "sm-all" \/ (s.cfg.build = "sm-replace" /\ m = "replace") \/ (s.cfg.build = "sm-clean" /\ m = "clean")
Paid(s, a) == IF a.by = "acc.near" THEN s.bal ELSE s.bal ++ a.dep   \* it may pay itself
SetOf(q) == {q[i] : i \in DOMAIN q}

Replace(s, a) ==
  IF \E i \in DOMAIN a.entries : Bad(a.entries[i][1]) \/ Bad(a.entries[i][2]) THEN Fail(s)
  ELSE Result([s EXCEPT !.storage = Written(s.storage, a.entries), !.bal = Paid(s, a)], TRUE, "none", <<>>)
Clean(s, a) ==
  IF \E i \in DOMAIN a.keys : Bad(a.keys[i]) THEN Fail(s)
  ELSE Result([s EXCEPT !.storage = [k \in DOMAIN s.storage \ SetOf(a.keys) |-> s.storage[k]], !.bal = Paid(s, a)], TRUE, "none", <<>>)

Apply(s, a) ==
  CASE ~Offers(s, a.act) -> Fail(s)
    [] a.raw # "none" -> Fail(s)      \* what arrives is not such a list
    [] a.act = "replace" -> Replace(s, a)
    [] a.act = "clean" -> Clean(s, a)

Obs(s) == [bal |-> s.bal, storage |-> s.storage]

(***************************************************************************)
(* S01.                                                                    *)
(***************************************************************************)
Val(s, k) == IF k \in DOMAIN s.storage THEN <<s.storage[k]>> ELSE <<>>
StepExact(s, a, r) ==
  /\ ~r.ok => r.s = s
  /\ r.ok /\ a.act = "clean" => \A k \in DOMAIN s.storage \cup DOMAIN r.s.storage : Val(r.s, k) = IF k \in SetOf(a.keys) THEN <<>> ELSE Val(s, k)
  /\ r.ok /\ a.act = "replace" =>
       \A k \in DOMAIN s.storage \cup DOMAIN r.s.storage \cup {a.entries[i][1] : i \in DOMAIN a.entries} :
         LET is == {i \in DOMAIN a.entries : a.entries[i][1] = k} IN
         Val(r.s, k) = IF is = {} THEN Val(s, k) ELSE <<a.entries[CHOOSE i \in is : \A j \in is : j <= i][2]>>

(* Receipts of one call are independent of each other. *)
EffOrdered == FALSE

Blame(s, a, d, r) == {"S01"}
=============================================================================
