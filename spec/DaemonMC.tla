-------------------------------- MODULE DaemonMC --------------------------------
(* Every behaviour of Daemon over a short time: two life cycles of the pipeline,  *)
(* an init() that may fail, tasks of any length and modify() asking for another   *)
(* time.  What a user relies on is stated over the events alone (history h).      *)
EXTENDS Daemon, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
End == IF Deep THEN 70 ELSE 50
Steps == IF Deep THEN {0, 4, 9, 10, 16} ELSE {0, 4, 10, 16}
Cfgs == [ms : {10, 20}]
Progs == {<<"init", "destroy", "init", "destroy">>, <<"process", "init", "destroy">>}
VARIABLES c, p, S, h
vars == <<c, p, S, h>>
Ev(v, s, n, ms) == [v |-> v, s |-> s, n |-> n, ms |-> ms]
\* up: initialised (-1: initialising, 1: yes, 0: no, 2: going down, 3: within process()); at: when the task must be called next, at the earliest (0) and the latest (1)
Init == /\ c \in Cfgs /\ p \in Progs /\ S = {S0(c)}
        /\ h = [now |-> 0, pc |-> 1, in |-> FALSE, up |-> 0, task |-> "no", from |-> 0, lo |-> 0, hi |-> -1, any |-> FALSE, bad |-> {}]
Chk(name, ok) == IF ok THEN {} ELSE {name}
Event(v, k, bad) == LET X == UNION {Step(c, s, v) : s \in S}
                    IN  X # {} /\ S' = X /\ h' = [k EXCEPT !.now = v.ms, !.bad = @ \cup bad \cup Chk("never late", k.up # 1 \/ h.up # 1 \/ h.task # "no" \/ h.hi < 0 \/ v.ms <= h.hi + SLACK)] /\ UNCHANGED <<c, p>>
Op == p[h.pc]
Call(t) == ~h.in /\ h.pc <= Len(p)
           /\ Event(Ev("call", Op, 0, t), [h EXCEPT !.in = TRUE, !.up = IF Op = "init" THEN -1 ELSE IF Op = "process" THEN 3 ELSE IF @ = 1 THEN 2 ELSE @,
                                                   !.lo = IF Op = "destroy" THEN @ ELSE t + c.ms, !.hi = -1, !.any = FALSE], {})
Ret(t, n) == h.in /\ (n = 0 \/ Op = "init")
             /\ Event(Ev("ret", Op, n, t),
                      [h EXCEPT !.in = FALSE, !.pc = @ + 1, !.up = IF Op = "init" /\ n = 0 THEN 1 ELSE 0, !.hi = IF Op = "init" /\ n = 0 THEN (IF ~h.any THEN t + c.ms ELSE IF @ < t THEN t ELSE @) ELSE @],
                      Chk("failed init", Op = "init" /\ n # 0 => ~h.any) \cup Chk("none at work after destroy", Op # "init" => h.task = "no"))
TaskB(t) == Event(Ev("dmb", "", 0, t), [h EXCEPT !.task = "task", !.from = t, !.any = TRUE],
                  Chk("only while it is up", h.up # 0) \cup Chk("one at a time", h.task = "no") \cup Chk("not early", t >= h.lo))
TaskE(t) == h.task = "task" /\ Event(Ev("dme", "", 0, t), [h EXCEPT !.task = "mod"], {})
Modify(t, n) == h.task = "mod"
                /\ LET due == IF n > 0 THEN t + n ELSE IF t < h.from + c.ms THEN h.from + c.ms ELSE t + c.ms
                   IN  Event(Ev("dmm", "", n, t), [h EXCEPT !.task = "no", !.lo = due - 1, !.hi = due], {})
Over == h.pc > Len(p)
Next == \/ (Over \/ h.now >= End) /\ UNCHANGED vars
        \/ ~Over /\ h.now < End
           /\ \E d \in Steps : LET t == h.now + d
                               IN  Call(t) \/ Ret(t, 0) \/ Ret(t, -1) \/ TaskB(t) \/ TaskE(t) \/ \E n \in {0, 5} : Modify(t, n)
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
