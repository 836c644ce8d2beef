------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of a component's specification within a bounded  *)
(* set of actions (Acts), and the writer of its state graph: every edge,   *)
(* with the outcome and the observations the specification demands, is     *)
(* replayed on the real contract.                                          *)
(***************************************************************************)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

CONSTANTS Initial(_), Apply(_, _), Obs(_), Cfgs, Acts(_), Depth
VARIABLES s, last

EInit == \E c \in Cfgs : /\ s = Initial(c) /\ EmitRoot(c, s)
                         /\ last = [act |-> [act |-> "start"], ok |-> TRUE, ret |-> "none", eff |-> <<>>]
ENext == \E a \in Acts(s) :
           LET r == Apply(s, a) IN
           s' = r.s /\ last' = [act |-> a, ok |-> r.ok, ret |-> r.ret, eff |-> r.eff]
EView == s
Deep == TLCGet("level") <= Depth
EmitEdge == Emit(s, last'.act, [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, obs |-> Obs(s')], s')
=============================================================================
