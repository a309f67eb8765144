--------------------------------- MODULE PoolMC --------------------------------
(* Every behaviour of Pool for a few tasks: handed over one by one, awaited,     *)
(* in groups, with priorities, over the life of the pool.  What a user relies on *)
(* is stated over the events alone (history h).                                  *)
EXTENDS Pool, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
Mode == IOEnv.MC_MODE                  \* tasks, life, groups, prio
N == IF Mode = "life" /\ ~Deep THEN 2 ELSE IF Deep /\ Mode = "prio" THEN 4 ELSE 3
Ret(i) == i % 2
Base == [n |-> N, ret |-> [i \in 1..N |-> Ret(i)], d |-> 1, max |-> 2, sec |-> 0, mon |-> 0, grp |-> <<>>, fin |-> <<>>]
Cfgs == CASE Mode = "groups" -> {[Base EXCEPT !.grp = <<<<1, 2>>, <<3>>>>, !.fin = <<f, 1 - f>>, !.d = 2] : f \in {0, 1}} \cup {[Base EXCEPT !.grp = <<<<1, 2, 3>>>>, !.fin = <<1>>]}
          [] Mode = "prio"   -> {[Base EXCEPT !.max = m, !.sec = k, !.mon = 0] : m \in IF Deep THEN {2} ELSE {2, 3}, k \in {0, 1}}
          [] Mode = "life" /\ Deep -> {[Base EXCEPT !.sec = k] : k \in {0, 1}}
          [] OTHER -> {[Base EXCEPT !.d = d, !.max = d + m, !.sec = k, !.mon = o] : d \in {1, 2}, m \in {0, 1}, k \in {0, 1}, o \in {0, 1}}
VARIABLES c, S, h
vars == <<c, S, h>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Ev(v, e, s, n, a) == [v |-> v, e |-> e, s |-> s, n |-> n, a |-> a, ms |-> h.now]
Event(v, k, bad) == LET X == UNION {Step(c, s, v) : s \in S} IN X # {} /\ S' = X /\ h' = [k EXCEPT !.bad = @ \cup bad] /\ UNCHANGED c
T == 1..N
\* put: handed over (in this order), putr: whose call has returned; kind, pr; on[t]: the thread it runs on (0: not running; d + 1: a secondary one);
\* dn: ended; when[t]; lost: handed over when the pool was destroyed; got: results taken; gs[g]: group g: st, when submitted, limit, status
\* idle: what was queued when a secondary thread last became free; ahead[t]: what was queued when t was handed over
Z(x) == [t \in T |-> x]
Init == /\ c \in Cfgs
        /\ S = Step(c, S0(c), [v |-> "ret", e |-> 0, s |-> "new", n |-> 0, a |-> 0, ms |-> 0])
        /\ h = [put |-> {}, putr |-> {}, kind |-> Z("n"), pr |-> Z(0), on |-> Z(0), dn |-> {}, when |-> Z(0), lost |-> {}, got |-> {}, pool |-> "up", rel |-> 0, lc |-> 0,
                gs |-> [g \in DOMAIN c.grp |-> [st |-> "new", t0 |-> 0, lim |-> 0, n |-> 0]], now |-> 0, idle |-> {}, ahead |-> Z({}), bad |-> {}]
Queued(k) == (k.put \ k.dn) \ {t \in T : k.on[t] # 0}
IsPrio(k) == k \in {"p", "long"}
Grouped == {t \in T : \E g \in DOMAIN c.grp : \E i \in DOMAIN c.grp[g] : c.grp[g][i] = t /\ h.gs[g].st = "new"}
Put(t, k, p) ==
    /\ t \notin h.put /\ h.pool = "up" /\ (\A u \in T : u < t => u \in h.put) /\ t \notin Grouped
    /\ (IsPrio(k) => Sec(c) > 0) /\ (k = "long" => c.sec > 0 \/ c.mon = 1)        \* (somebody must be there to run it)
    /\ Event(Ev("put", t, k, p, 0), [h EXCEPT !.put = @ \cup {t}, !.kind[t] = k, !.pr[t] = p, !.ahead[t] = {u \in h.putr : IsPrio(h.kind[u])} \cap Queued(h)], {})
Putr(t) == t \in h.put \ h.putr /\ Event(Ev("putr", t, "", 0, 0), [h EXCEPT !.putr = @ \cup {t}], {})
OnSecs(k) == {t \in T : k.on[t] = c.d + 1}
Room == IF c.mon = 1 THEN Sec(c) + 1 ELSE Sec(c)         \* (one more thread for a moment, with the monitor)
Tb(t, n) ==
    /\ LET to == IF n = -2 THEN c.d + 1 ELSE n + 1
           \* queued before t was handed over, or when the only secondary thread looked for work
           first == {u \in Queued(h) \ h.lost : IsPrio(h.kind[u]) /\ h.pr[u] > h.pr[t] /\ u \in h.ahead[t]}
       IN  Event(Ev("tb", t, "", n, 0), [h EXCEPT !.on[t] = to],
                 Chk("handed over and not begun before", t \in Queued(h))
                 \cup Chk("not after the end", h.pool \in {"up", "opening", "closing", "dying"})
                 \cup Chk("one at a time per primary thread", to <= c.d => \A u \in T : h.on[u] # to)
                 \cup Chk("no more threads than allowed", Cardinality(OnSecs(h) \cup (IF n = -2 THEN {t} ELSE {})) <= Room)
                 \cup Chk("priority tasks and long ones leave the primary threads alone", IsPrio(h.kind[t]) => n = -2)
                 \cup Chk("the higher priority first", IsPrio(h.kind[t]) /\ c.mon = 0 => Cardinality(first) + Cardinality(OnSecs(h)) + 1 <= Sec(c)))
Te(t) == h.on[t] # 0 /\ Event(Ev("te", t, "", Ret(t), 0), [h EXCEPT !.on[t] = 0, !.dn = @ \cup {t}, !.when[t] = h.now], {})
Get(t, n) == t \in h.putr \ h.got /\ (\A g \in DOMAIN c.grp : \A i \in DOMAIN c.grp[g] : c.grp[g][i] # t)
             /\ Event(Ev("ret", t, "get", n, 0), [h EXCEPT !.got = @ \cup {t}],
                      IF n = BROKEN THEN Chk("lost only with the pool", t \in h.lost /\ t \notin h.dn /\ h.on[t] = 0)
                      ELSE Chk("its result, after its end", t \in h.dn /\ n = Ret(t)))
\* groups: submitted, then every task is handed over
Has(g) == {c.grp[g][i] : i \in DOMAIN c.grp[g]}
LIM == 8
GCall(g) == h.gs[g].st = "new" /\ (\A f \in DOMAIN c.grp : f < g => h.gs[f].st # "new") /\ Event(Ev("gcall", g, "", LIM, 0), [h EXCEPT !.gs[g] = [st |-> "call", t0 |-> h.now, lim |-> LIM, n |-> 0]], {})
Judge(g, n) == IF n = 0 THEN Chk("all have ended", Has(g) \subseteq h.dn)
               ELSE Chk("the time is over", h.now >= h.gs[g].t0 + LIM - 1) \cup Chk("not all ended in time", \E t \in Has(g) : t \notin h.dn \/ h.when[t] >= h.gs[g].t0 + LIM - 1)
GFin(g, n) == h.gs[g].st = "call" /\ Event(Ev("gfin", g, "", n, 0), [h EXCEPT !.gs[g].st = "fin", !.gs[g].n = n], Judge(g, n) \cup Chk("where there is one", c.fin[g] = 1))
GRet(g, n) == h.gs[g].st \in {"call", "fin"}
              /\ Event(Ev("gret", g, "", n, 0), [h EXCEPT !.gs[g].st = "ret"],
                       IF c.fin[g] = 1 THEN Chk("after its callback, with its status", h.gs[g].st = "fin" /\ h.gs[g].n = n) ELSE Judge(g, n))
\* the life of the pool
L(v, s, n, a, to, k, bad) == Event(Ev(v, 0, s, n, a), [k EXCEPT !.pool = to, !.lc = @ + 1], bad)
Life ==
    /\ Mode = "life"
    /\ \/ (h.pool = "up" /\ h.lc < 4 /\ h.put = h.putr /\ \E s \in {"destroy", "delete"} : L("call", s, 0, 0, IF s = "destroy" THEN "closing" ELSE "dying", [h EXCEPT !.lost = @ \cup Queued(h)], {}))
       \/ (h.pool = "down" /\ h.lc < 6 /\ L("call", "init", 0, 0, "opening", h, {}))
       \/ (h.pool = "opening" /\ \E n \in {0, -1} : L("ret", "init", n, 0, "up", h, Chk("can be used again", n = 0)))
       \/ (h.pool = "closing" /\ \E n \in {0, -1} : L("ret", "destroy", n, 0, "down", [h EXCEPT !.lost = @ \cup Queued(h)], Chk("works", n = 0) \cup Chk("nothing goes on", \A t \in T : h.on[t] = 0)))
       \/ (h.pool = "dying" /\ L("ret", "delete", 0, 0, "dead", h, Chk("nothing goes on", \A t \in T : h.on[t] = 0)))
       \/ (h.pool \in {"up", "down"} /\ h.lc < 3 /\ \E n \in {0, -1} : L("ret", "setcfg", n, 0, h.pool, h, Chk("only when it is down", (n = 0) = (h.pool = "down"))))
       \/ (h.pool \in {"up", "down"} /\ h.lc < 3 /\ \E n \in {0, 1} : L("isinit", "", n, 0, h.pool, h, Chk("tells the truth", (n = 1) = (h.pool = "up"))))
       \/ (h.pool \in {"up"} /\ h.lc < 3 /\ \E n \in {0, -1} : L("ret", "release", n, 1, h.pool, IF n = 0 THEN [h EXCEPT !.rel = @ + 1] ELSE h, {}))
Pass == /\ Mode = "groups" /\ h.now < 16 /\ \A g \in DOMAIN c.grp : h.gs[g].st = "call" => h.now + 4 <= h.gs[g].t0 + LIM + SLACK
        /\ (\E g \in DOMAIN c.grp : h.gs[g].st = "call") 
        /\ \A g \in DOMAIN c.grp : h.gs[g].st = "call" => (~(Has(g) \subseteq h.dn) \/ \E t \in Has(g) : h.when[t] >= h.gs[g].t0 + LIM - 1)
        /\ h' = [h EXCEPT !.now = @ + 4] /\ UNCHANGED <<c, S>>
Kinds == CASE Mode = "prio" -> {<<"p", 1>>, <<"p", 2>>, <<"n", 0>>} [] Mode = "tasks" -> {<<"n", 0>>, <<"p", 1>>, <<"long", 0>>} [] OTHER -> {<<"n", 0>>}
AllDone == (h.pool = "up" /\ h.put = T /\ h.dn \cup h.lost = T /\ \A g \in DOMAIN c.grp : h.gs[g].st = "ret")
Rest == (h.pool \in {"up", "down", "dead"} /\ \A t \in T : h.on[t] = 0) /\ (AllDone \/ h.pool # "up")
Next == \/ \E t \in T : \/ (\E k \in Kinds : Put(t, k[1], k[2])) \/ Putr(t) \/ (\E n \in -2..(c.d - 1) : Tb(t, n)) \/ Te(t)
                        \/ (Mode \in {"tasks", "life"} /\ \E n \in {0, 1, BROKEN} : Get(t, n))
        \/ (\E g \in DOMAIN c.grp : GCall(g) \/ \E n \in {0, -1} : GFin(g, n) \/ GRet(g, n))
        \/ Life \/ Pass
        \/ (Rest /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
