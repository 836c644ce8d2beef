--------------------------- MODULE LockupFactoryMC ---------------------------
EXTENDS LockupFactory
CONSTANTS Alphabet, Depth
VARIABLES s, last

Sched == [start |-> "1602614338293769000", cliff |-> "1602614338293769400", end |-> "1602614338293770600"]
Cfg(x) == [self |-> x, balance |-> "1000", time |-> "1602614338293769350", sched |-> Sched, salt |-> "c2FsdA==", owners |-> <<"ann.near", "ben.near", "o.lf.near", "alice.near">>]
Cfgs == {Cfg("lf.near")} \cup (IF Alphabet = "terms" THEN {Cfg("l2345678901234567.near1"), Cfg("l2345678901234567.near12")} ELSE {})
Begin == [act |-> "new", by |-> "alice.near", dep |-> "0", wl |-> "wl.near", found |-> "found.near"]
Sch(c) == [kind |-> "schedule", sched |-> c]
Hash == [kind |-> "hash", sched |-> Sched, salt |-> "c2FsdA=="]
Ask(u, o) == [act |-> "create", by |-> u, dep |-> MIN_DEPOSIT ++ "1000", owner |-> o, dur |-> "0", ts |-> "none", rel |-> "none", wl |-> "none", vesting |-> [kind |-> "none"]]
Callback(u, q) == [act |-> "on_lockup_create", by |-> u, dep |-> "0", id |-> "x.lf.near", amount |-> MIN_DEPOSIT, who |-> "mallory.near", res |-> q]
Running(st) == {[act |-> "env_exec", i |-> Z(i), good |-> TRUE] : i \in DOMAIN st.ops}
               \cup {[act |-> "env_exec", i |-> Z(i), good |-> FALSE] : i \in {j \in DOMAIN st.ops : st.ops[j].kind = "create"}}
Inverted == [start |-> Sched.end, cliff |-> Sched.cliff, end |-> Sched.start]
Late == [Sched EXCEPT !.cliff = "1602614338293770601"]
Point == [start |-> Sched.end, cliff |-> Sched.end, end |-> Sched.end]

Flow(st) ==
  IF ~st.init THEN {Begin, Ask("alice.near", "ann.near"), [Begin EXCEPT !.wl = "Bad!"], [Begin EXCEPT !.found = "Bad!"]}
  ELSE Running(st)
       \cup {Ask("alice.near", "ann.near"), [Ask("bob.near", "ann.near") EXCEPT !.vesting = Sch(Sched), !.rel = "1000"],
             [Ask("bob.near", "ben.near") EXCEPT !.vesting = Sch(Inverted)], [Ask("bob.near", "ben.near") EXCEPT !.vesting = Hash]}
       \cup {Callback("mallory.near", "failed"), Callback("lf.near", "fine"), Begin, [act |-> "env_time", d |-> "400"]}

(* Every combination of the optional terms, once each, and what it unlocks later. *)
Terms1(st) ==
  IF ~st.init THEN {Begin}
  ELSE IF st.ops = <<>> /\ st.locks = <<>>
  THEN {[Ask("alice.near", o) EXCEPT !.vesting = v, !.rel = rel, !.ts = ts, !.dur = dur, !.wl = w] :
          o \in {"ann.near"}, v \in {[kind |-> "none"], Sch(Sched), Hash}, rel \in {"none", "900"},
          ts \in {"none", "1602614338293769700"}, dur \in {"0", "500"}, w \in {"none", "wl2.near"}}
       \cup {[Ask("alice.near", "ann.near") EXCEPT !.vesting = Sch(c)] : c \in {Inverted, Late, Point}}
       \cup {Ask("alice.near", o) : o \in {"Bad!", "x", "", "UPPER.near", "alice.near", "o.lf.near"}}
       \cup {[Ask("alice.near", "ben.near") EXCEPT !.wl = "Bad!"], [Ask("alice.near", "ben.near") EXCEPT !.dep = MIN_DEPOSIT -- "1"],
             [Ask("alice.near", "ben.near") EXCEPT !.dep = MIN_DEPOSIT], [Ask("alice.near", "ben.near") EXCEPT !.dep = "0"],
             [Ask("alice.near", "ben.near") EXCEPT !.dur = U64MAX], [Ask("alice.near", "ben.near") EXCEPT !.dur = U64MAX ++ "1"]}
  ELSE Running(st) \cup (IF st.now \prec "1602614338293770000" THEN {[act |-> "env_time", d |-> "300"]} ELSE {})
Acts(st) == CASE Alphabet = "flow" -> Flow(st) [] Alphabet = "terms" -> Terms1(st)
INSTANCE Explore
R == [ok |-> last'.ok, ret |-> last'.ret, eff |-> last'.eff, s |-> s']
F02_Money == InvMoney(s)
F02_Locks == InvLocks(s)
F02_Terms == [][StepTerms(s, last'.act, R)]_<<s, last>>
F02_Ends == [][StepEnds(s, last'.act, R)]_<<s, last>>
=============================================================================
