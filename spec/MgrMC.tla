--------------------------------- MODULE MgrMC ---------------------------------
(* Every behaviour of Mgr for two pipelines and a few calls by two or three      *)
(* threads, after init() and before destroy().  What a user relies on is stated  *)
(* over the events alone (history h).                                            *)
EXTENDS Mgr, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
Cfgs == {[dep |-> <<<<<<>>>>, <<<<>>>>>>, fail |-> <<0, 0>>], [dep |-> <<<<<<>>, <<1>>>>>>, fail |-> <<0>>]}
        \cup (IF Deep THEN {[dep |-> <<<<<<>>, <<>>>>, <<<<>>>>>>, fail |-> <<0, 0>>]} ELSE {})
Most == IF Deep THEN 6 ELSE 5        \* calls
T == 1..3
FAIL == -5
VARIABLES c, S, h
vars == <<c, S, h>>
Evt(v, p, e, s, n, a, t) == [v |-> v, p |-> p, e |-> e, s |-> s, n |-> n, a |-> a, t |-> t, ms |-> 0]
Ev(v, p, e, s, n, a) == Evt(v, p, e, s, n, a, 0)
RECURSIVE Do(_, _, _)
Do(d, X, q) == IF q = <<>> THEN X ELSE Do(d, UNION {Step(d, s, Head(q)) : s \in X}, Tail(q))
Setup(d) == [i \in 1..Len(d.dep) |-> Ev("ret", i, 0, "mgr_add", 0, 0)] \o <<Ev("call", 1, 0, "mgr_init", 0, 0)>>
Inits(d) == IF Len(d.dep) = 1 THEN [i \in 1..Len(d.dep[1]) |-> Ev("ie", 1, i, "", 0, 0)]
            ELSE [i \in 1..Len(d.dep[1]) |-> Ev("ie", 1, i, "", 0, 0)] \o [i \in 1..Len(d.dep[2]) |-> Ev("ie", 2, i, "", 0, 0)]
P == Pipes(c)
Z(d) == [p \in Pipes(d) |-> [e \in Els(d, p) |-> 0]]
\* h.op[t]: what thread t has called, h.arg[t] on which pipeline; h.full[t]: all pipelines may have been in use at some moment of the call;
\* held[p]: fetched and not released; st, dn: how often elements began and ended well; on: elements at work
Init == /\ c \in Cfgs
        /\ S = Do(c, {S0(c)}, Setup(c) \o Inits(c) \o <<Ev("ret", 1, 0, "mgr_init", 0, 0)>>)
        /\ h = [op |-> [t \in T |-> "no"], arg |-> [t \in T |-> 0], full |-> [t \in T |-> FALSE], held |-> {}, back |-> {}, n |-> 0,
                st |-> Z(c), dn |-> Z(c), on |-> {}, bad |-> {}, okay |-> 0, err |-> 0, codes |-> 0]
Chk(name, ok) == IF ok THEN {} ELSE {name}
Users(k) == Cardinality({t \in T : k.op[t] \in {"mgr_run", "mgr_fetch"}}) + Cardinality(k.held) + Cardinality({t \in T : k.op[t] = "mgr_release"})
Fill(k) == [k EXCEPT !.arg = [t \in T |-> IF k.op[t] = "no" THEN 0 ELSE @[t]],
                       !.full = [t \in T |-> k.op[t] # "no" /\ (@[t] \/ Users(k) - 1 >= Total(c, CHOOSE s \in S : TRUE))]]
Event(v, k, bad) == LET X == UNION {Step(c, s, v) : s \in S} IN X # {} /\ S' = X /\ h' = [Fill(k) EXCEPT !.bad = @ \cup bad] /\ UNCHANGED c
In(o) == {t \in T : h.op[t] = o}
DoCall(t, o, p) == h.op[t] = "no" /\ (\A u \in T : u < t => h.op[u] # "no") /\ h.n < Most     \* (idle threads are alike)
                 /\ Event(Evt("call", p, 0, o, 0, 0, t), [h EXCEPT !.op[t] = o, !.arg[t] = p, !.n = @ + 1, !.full[t] = FALSE, !.held = IF o = "mgr_release" THEN @ \ {p} ELSE @], {})
Runs(p) == IF \A e \in Els(c, p) : h.dn[p][e] = h.dn[p][1] /\ h.st[p][e] = h.dn[p][e] THEN h.dn[p][1] ELSE -1000
Start(p, e) == /\ h.n <= Most
               /\ Event(Ev("rb", p, e, "", 0, 0), [h EXCEPT !.st[p][e] = @ + 1, !.on = @ \cup {<<p, e>>}],
                        Chk("asked for", In("mgr_run") # {} \/ \E t \in In("mgr_frun") : h.arg[t] = p)
                        \cup Chk("not in two hands", p \in h.held => \E t \in In("mgr_frun") : h.arg[t] = p)
                        \cup Chk("not twice at once", <<p, e>> \notin h.on)
                        \cup Chk("order", \A d \in Dep(c, p, e) : h.dn[p][d] > h.st[p][e])
                        \cup Chk("no more pipelines at work than runs", Cardinality({q[1] : q \in h.on} \cup {p}) <= Cardinality(In("mgr_run") \cup In("mgr_frun"))))
Stop(p, e, n) == <<p, e>> \in h.on /\ (n = 0 \/ h.err = 0)
                 /\ Event(Ev("re", p, e, "", n, 0), IF n = 0 THEN [h EXCEPT !.dn[p][e] = @ + 1, !.on = @ \ {<<p, e>>}]
                                                   ELSE [h EXCEPT !.err = @ + 1, !.on = @ \ {<<p, e>>}], {})
Whole(t) == LET f == [p \in P |-> CHOOSE n \in 0..(2 * Most) : (\A e \in Els(c, p) : h.dn[p][e] >= n) /\ \E e \in Els(c, p) : h.dn[p][e] = n] IN Sum(f, P)
DoRet(t, n, a) ==
    /\ h.op[t] # "no"
    /\ LET o == h.op[t]  p == h.arg[t]
           k == [h EXCEPT !.op[t] = "no", !.codes = IF n = FAIL THEN @ + 1 ELSE @, !.okay = IF o \in {"mgr_run", "mgr_frun"} /\ n = 0 THEN @ + 1 ELSE @, !.held = IF o = "mgr_fetch" /\ a > 0 THEN @ \cup {a} ELSE @]
       IN  Event(Evt("ret", p, 0, o, n, a, t), k,
                 Chk("a whole run of its own", o \in {"mgr_run", "mgr_frun"} /\ n = 0 => Whole(t) > h.okay)
                 \cup Chk("refused only when all are in use", o = "mgr_run" /\ n = ERR => h.full[t])
                 \cup Chk("a failure of its own", n = FAIL => h.codes < h.err)
                 \cup Chk("none only when all are in use", o = "mgr_fetch" /\ a = 0 => h.full[t])
                 \cup Chk("to one caller only", o = "mgr_fetch" /\ a > 0 => a \notin h.held)
                 \cup Chk("its result", o = "mgr_frun" => n # ERR)
                 \cup Chk("every failure is somebody's", (\A u \in T \ {t} : h.op[u] = "no") /\ o \in {"mgr_run", "mgr_frun"} => k.codes = h.err))
AllBack == \A t \in T : h.op[t] = "no"
Next == \/ \E t \in T : \/ DoCall(t, "mgr_run", 1)
                        \/ DoCall(t, "mgr_fetch", 1)
                        \/ (\E p \in h.held \ {h.arg[u] : u \in In("mgr_frun")} : DoCall(t, "mgr_release", p) \/ DoCall(t, "mgr_frun", p))
                        \/ DoRet(t, 0, 0)
                        \/ DoRet(t, ERR, 0)
                        \/ (h.op[t] \in {"mgr_run", "mgr_frun"} /\ DoRet(t, FAIL, 0))
                        \/ (h.op[t] = "mgr_fetch" /\ \E p \in P : DoRet(t, 0, p))
        \/ (\E p \in P : \E e \in Els(c, p) : Start(p, e) \/ Stop(p, e, 0) \/ Stop(p, e, FAIL))
        \/ (AllBack /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
