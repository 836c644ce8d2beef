------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance, from the implementation to the specification: recorded     *)
(* executions of the real contract must be behaviours of the specification.*)
(*                                                                         *)
(* The recording (JSON file named by TRACE) is a forest: node -> its       *)
(* outgoing edges [to, act, ok, ret, eff, obs], where act is the action    *)
(* performed with its arguments, ok/ret/eff its outcome, returned value    *)
(* and external effects, and obs everything observable afterwards.  The    *)
(* specification's state s evolves by the specification alone; every edge  *)
(* is taken and compared.  A branch that has diverged is not continued.    *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

CONSTANTS Initial(_), Apply(_, _), Obs(_), Blame(_, _, _, _), EffOrdered
VARIABLES s, last, node, edge

T == Recording("TRACE")

Diff(r, e) ==
  IF r.ok # e.ok THEN {"ok"}
  ELSE LET o == Obs(r.s) IN
       (IF r.ok /\ ~Same(r.ret, e.ret) THEN {"ret"} ELSE {})
       \cup (IF ~(IF EffOrdered THEN Same(r.eff, e.eff) ELSE SameBag(r.eff, e.eff)) THEN {"eff"} ELSE {})
       \cup {f \in (DOMAIN o) \cup (DOMAIN e.obs) :
               IF f \in DOMAIN o /\ f \in DOMAIN e.obs THEN ~Same(o[f], e.obs[f]) ELSE TRUE}

TInit ==
  \E i \in DOMAIN T.roots :
    /\ node = T.roots[i].node /\ edge = <<0, i>>
    /\ s = Initial(T.roots[i].cfg)
    /\ last = [act |-> [act |-> "start"], ok |-> TRUE, ret |-> "none", eff |-> <<>>, diff |-> {}]

Take(e) ==
  LET r == Apply(s, e.act)
      d == Diff(r, e)
  IN /\ s' = r.s
     /\ last' = [act |-> e.act, ok |-> r.ok, ret |-> r.ret, eff |-> r.eff, diff |-> d]
     /\ d # {} => Report([edge |-> edge', blame |-> Blame(s, e.act, d, r), diff |-> d, act |-> e.act,
                          exp |-> [ok |-> r.ok, ret |-> r.ret, eff |-> r.eff, obs |-> Obs(r.s)],
                          got |-> [ok |-> e.ok, ret |-> e.ret, eff |-> e.eff, obs |-> e.obs]])

TNext ==
  /\ last.diff = {} /\ node # 0
  /\ \E i \in DOMAIN T.succ[node] :
       /\ node' = T.succ[node][i].to
       /\ edge' = <<node, i>>
       /\ Take(T.succ[node][i])

TView == edge
Conforms == last.diff = {}
=============================================================================
