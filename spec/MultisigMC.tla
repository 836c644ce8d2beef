----------------------------- MODULE MultisigMC -----------------------------
(* Bounded action sets for exhaustive exploration of both versions. *)
EXTENDS Multisig
CONSTANTS Alphabet, Depth
VARIABLES s, last

K(k) == [kind |-> "key", key |-> k]
A(x) == [kind |-> "account", account |-> x]
KeyOn(k, f) == [key |-> k, full |-> f]
Cfg1 == [v |-> "1", balance |-> "100", time |-> "5", keys |-> <<KeyOn("k1", FALSE), KeyOn("k2", FALSE), KeyOn("k3", FALSE)>>,
         univ |-> <<"k:k1", "k:k2", "k:k3", "k:k4">>]
Cfg2 == [v |-> "2", balance |-> "100", time |-> "5", keys |-> <<KeyOn("k0", TRUE)>>,
         univ |-> <<"k:k1", "k:k2", "k:k3", "a:alice.near", "a:bob.near">>]
One == Alphabet \in {"keys1", "limits1", "calls1"}
Cfgs == {IF One THEN Cfg1 ELSE Cfg2}

By(m, b, k) == [act |-> m, by |-> b, pk |-> k, dep |-> "0"]
AddAs(m, w, q) == [act |-> m, by |-> w[1], pk |-> w[2], dep |-> "0", request |-> q]
AddR(w, q) == AddAs("add_request", w, q)
AddC(w, q) == AddAs("add_request_and_confirm", w, q)
Conf(w, i) == [act |-> "confirm", by |-> w[1], pk |-> w[2], dep |-> "0", id |-> i]
Del(w, i) == [act |-> "delete_request", by |-> w[1], pk |-> w[2], dep |-> "0", id |-> i]
Q(to, acts) == [receiver_id |-> to, actions |-> acts]

K1 == <<Self, "k1">>  K2 == <<Self, "k2">>  K3 == <<Self, "k3">>  K4 == <<Self, "k4">>
AL == <<"alice.near", "ka">>  BO == <<"bob.near", "kb">>  MA == <<"mallory.near", "k1">>

Pay(x) == [type |-> "Transfer", amount |-> x]
SetK(n) == [type |-> "SetNumConfirmations", num_confirmations |-> n]
SetL(n) == [type |-> "SetActiveRequestsLimit", active_requests_limit |-> n]
AddFull(k) == [type |-> "AddKey", public_key |-> k, permission |-> [kind |-> "full"]]
AddCall(k) == [type |-> "AddKey", public_key |-> k,
               permission |-> [kind |-> "call", allowance |-> "none", receiver_id |-> Self, method_names |-> <<"confirm", "add_request">>]]
DelKey(k) == [type |-> "DeleteKey", public_key |-> k]
AddM(m) == [type |-> "AddMember", member |-> m]
DelM(m) == [type |-> "DeleteMember", member |-> m]
Fn(m, args, dep, gas) == [type |-> "FunctionCall", method_name |-> m, args |-> args, deposit |-> dep, gas |-> gas]

Idle(st) == st.ops = <<>>
Settle == {[act |-> "env_exec", i |-> "1", good |-> g] : g \in BOOLEAN}
NewReq(st, n) == st.nonce \prec n
Pending(st) == DOMAIN st.reqs
NewV(st, m, k) == [act |-> "new", by |-> IF One THEN "creator.near" ELSE Self, pk |-> "k0", dep |-> "0", K |-> k, members |-> m]

(* Confirmations by keys, with key and threshold changes. *)
Keys1(st) ==
  IF ~st.init THEN {NewV(st, <<>>, "2")}
  ELSE IF ~Idle(st) THEN Settle
  ELSE (IF NewReq(st, "3")
        THEN {AddR(K1, Q("bob.near", <<Pay("7")>>)), AddC(K1, Q(Self, <<AddCall("k4"), DelKey("k1")>>)), AddC(K2, Q(Self, <<SetK("1")>>)),
              AddR(K2, Q(Self, <<SetK("3")>>)), AddC(K3, Q(Self, <<DelKey("k2")>>)), AddC(K2, Q("bob.near", <<Pay("60"), DelKey("k3")>>)),
              AddC(MA, Q("bob.near", <<Pay("7")>>))} ELSE {})
       \cup {Conf(w, i) : w \in {K1, K2, K3, K4, MA}, i \in Pending(st)}

(* Limits, cooldown, counts. *)
Limits1(st) ==
  IF ~st.init THEN {NewV(st, <<>>, k) : k \in {"0", "2"}}
  ELSE IF ~Idle(st) THEN Settle
  ELSE (IF NewReq(st, "4")
        THEN {AddR(K1, Q("bob.near", <<Pay("7")>>)), AddC(K1, Q(Self, <<SetL("1")>>)), AddC(K2, Q(Self, <<SetL("2")>>)),
              AddC(K2, Q(Self, <<SetL("0"), Pay("1")>>))} ELSE {})
       \cup {Conf(w, i) : w \in {K1, K2}, i \in Pending(st)}
       \cup {Del(w, i) : w \in {K1, MA}, i \in Pending(st)}
       \cup (IF st.now \prec "1800000000005" THEN {[act |-> "env_time", d |-> x] : x \in {"900000000000", "1"}} ELSE {})

(* What requests may contain, and calls back into the contract. *)
Calls1(st) ==
  IF ~st.init THEN {NewV(st, <<>>, "1")} \cup {Conf(K1, "0"), Del(K1, "0"), AddR(K1, Q("bob.near", <<Pay("7")>>))}
  ELSE IF ~Idle(st) THEN Settle
  ELSE (IF NewReq(st, "2")
        THEN {AddAs(f, K1, q) : f \in {"add_request", "add_request_and_confirm"},
              q \in {Q("bob.near", <<Pay("7"), Fn("ping", [x |-> "1"], "9", TGAS), [type |-> "CreateAccount"], [type |-> "DeployContract", code |-> "xyz"]>>),
                     Q("bob.near", <<AddFull("k4")>>), Q("bob.near", <<DelKey("k4")>>), Q("bob.near", <<SetK("1")>>), Q("bob.near", <<SetL("1")>>),
                     Q("Bad!", <<Pay("1")>>), Q("bob.near", <<Pay("60"), Pay("60")>>), Q(Self, <<AddFull("k4"), Pay("3")>>), Q(Self, <<AddFull("k1")>>),
                     Q(Self, <<AddFull("bad")>>), Q(Self, <<SetK("2"), Pay("3")>>), Q("bob.near", <<>>), Q(Self, <<[type |-> "CreateAccount"]>>),
                     Q("bob.near", <<Fn("", <<>>, "0", TGAS)>>), Q("bob.near", <<Fn("m", <<>>, "0", MAXGAS)>>),
                     Q(Self, <<Fn("confirm", [request_id |-> "1"], "0", "50000000000000")>>),
                     Q(Self, <<Pay("3"), Fn("add_request_and_confirm", [request |-> Q("bob.near", <<Pay("20")>>)], "0", "50000000000000"),
                               Fn("add_request", [request |-> Q("bob.near", <<Pay("21")>>)], "0", "50000000000000")>>)}} ELSE {})
       \cup {Conf(w, i) : w \in {K1, K2}, i \in Pending(st)} \cup {NewV(st, <<>>, "3")}
       \cup {[By("confirm", Self, "k1") EXCEPT !.dep = "1"] @@ [id |-> "0"]}

(* Membership. *)
Members2(st) ==
  IF ~st.init THEN {NewV(st, <<K("k1"), A("alice.near"), K("k2")>>, "2")}
  ELSE IF ~Idle(st) THEN Settle
  ELSE (IF NewReq(st, "3")
        THEN {AddR(K1, Q("bob.near", <<Pay("7")>>)), AddC(K1, Q(Self, <<AddM(K("k3")), DelM(K("k1"))>>)), AddC(AL, Q(Self, <<DelM(K("k2"))>>)),
              AddC(K2, Q(Self, <<DelM(A("alice.near")), Pay("5")>>)), AddR(AL, Q(Self, <<AddM(A("bob.near"))>>)), AddC(K2, Q(Self, <<SetK("3")>>)), 
              AddC(AL, Q(Self, <<SetK("1")>>)), AddC(BO, Q("bob.near", <<Pay("7")>>)), AddC(MA, Q("bob.near", <<Pay("7")>>))} ELSE {})
       \cup {Conf(w, i) : w \in {K1, K2, K3, AL, BO, MA}, i \in Pending(st)}

Limits2(st) ==
  IF ~st.init THEN {NewV(st, m, k) : m \in {<<K("k1"), A("alice.near")>>, <<A("alice.near"), A("alice.near")>>, <<K("k1"), K("k1"), A("bob.near")>>, <<>>}, k \in {"0", "2"}}
  ELSE IF ~Idle(st) THEN Settle
  ELSE (IF NewReq(st, "4")
        THEN {AddR(AL, Q("bob.near", <<Pay("7")>>)), AddC(AL, Q(Self, <<SetL("1")>>)), AddC(K1, Q(Self, <<SetL("2")>>)), AddR(BO, Q("bob.near", <<Pay("8")>>))} ELSE {})
       \cup {Conf(w, i) : w \in {K1, AL}, i \in Pending(st)}
       \cup {Del(w, i) : w \in {K1, MA}, i \in Pending(st)}
       \cup (IF st.now \prec "1800000000005" THEN {[act |-> "env_time", d |-> x] : x \in {"900000000000", "1"}} ELSE {})

Calls2(st) ==
  IF ~st.init THEN {NewV(st, m, k) : m \in {<<K("k1"), A("alice.near")>>, <<K("bad")>>, <<A("Bad!")>>}, k \in {"1", "3"}} \cup {Conf(AL, "0"), Del(AL, "0"), AddR(AL, Q("bob.near", <<Pay("7")>>))}
  ELSE IF ~Idle(st) THEN Settle
  ELSE (IF NewReq(st, "2")
        THEN {AddAs(f, w, q) : f \in {"add_request", "add_request_and_confirm"}, w \in {K1, AL},
              q \in {Q("bob.near", <<Pay("7"), Fn("ping", [x |-> "1"], "9", TGAS), [type |-> "CreateAccount"], [type |-> "DeployContract", code |-> "xyz"]>>),
                     Q("bob.near", <<AddFull("k4")>>), Q("bob.near", <<DelM(K("k1"))>>), Q("bob.near", <<AddM(A("carol.near"))>>), Q("bob.near", <<SetK("1")>>), Q("bob.near", <<SetL("1")>>),
                     Q("Bad!", <<Pay("1")>>), Q("bob.near", <<Pay("60"), Pay("60")>>), Q(Self, <<AddCall("k4"), Pay("3")>>), Q(Self, <<AddM(K("k1"))>>),
                     Q(Self, <<AddM(K("bad"))>>), Q(Self, <<DelM(A("carol.near"))>>), Q(Self, <<SetK("2"), Pay("3")>>), Q("bob.near", <<>>), Q(Self, <<DelM(K("k4"))>>),
                     Q(Self, <<Fn("confirm", [request_id |-> "1"], "0", "50000000000000")>>),
                     Q(Self, <<Pay("3"), Fn("add_request_and_confirm", [request |-> Q("bob.near", <<Pay("20")>>)], "0", "50000000000000"),
                               Fn("add_request", [request |-> Q("bob.near", <<Pay("21")>>)], "0", "50000000000000")>>)}} ELSE {})
       \cup {Conf(w, i) : w \in {K1, AL}, i \in Pending(st)} \cup {NewV(st, <<A("mallory.near")>>, "1")}

Acts(st) == CASE Alphabet = "keys1" -> Keys1(st) [] Alphabet = "limits1" -> Limits1(st) [] Alphabet = "calls1" -> Calls1(st)
              [] Alphabet = "members2" -> Members2(st) [] Alphabet = "limits2" -> Limits2(st) [] Alphabet = "calls2" -> Calls2(st)

INSTANCE Explore
R == [ok |-> last'.ok, eff |-> last'.eff, s |-> s']
Counted == InvCount(s) /\ InvCounted(s)
Executes == [][StepExecute(s, last'.act, R)]_<<s, last>>
Confirms == [][StepConfirm(s, last'.act, R)]_<<s, last>>
Limited == [][StepLimit(s, last'.act, R) /\ StepNonce(s, last'.act, R) /\ StepRemoved(s, last'.act, R)]_<<s, last>>
Config == [][StepConfig(s, last'.act, R) /\ StepKeys(s, last'.act, R) /\ StepMembers(s, last'.act, R)]_<<s, last>>
Foreign == [][StepForeign(s, last'.act, R)]_<<s, last>>
=============================================================================
