---------------------------------- MODULE Mgr ----------------------------------
(* A pipeline manager: it owns copies of pipelines, each run() takes a free one, *)
(* runs it and gives it back, fetch() and release() do the same by hand; no     *)
(* pipeline is ever in two hands.  Which free pipeline is taken is not said.     *)
(* c.dep[p]: the elements of pipeline p and what they depend on, as a sequence.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ERR == -1
Pipes(c) == DOMAIN c.dep
Els(c, p) == DOMAIN c.dep[p]
Dep(c, p, e) == {c.dep[p][e][i] : i \in DOMAIN c.dep[p][e]}
Idle == [on |-> FALSE, st |-> {}, dn |-> {}, fl |-> {}, code |-> 0]      \* begun, ended well, failed

\* up: initialised; mem[p]: how often p was added; held: pipelines in somebody's hands; pr[p]: progress of its run
\* threads within run(): asked (no pipeline taken yet), mine (taken one), refused, bad (not initialised); which of them runs which pipeline is
\* not said: got (taken, nothing started), out (codes of ended runs)
\* ini: elements of pipelines initialised and not destroyed; threads within fetch(): fw, those that have one: fgot, those that get none: fno
\* threads within release(): rel (with the pipeline), rok and rbad when it is decided whether it was theirs to give back
S0(c) == [up |-> FALSE, pup |-> {}, mem |-> [p \in Pipes(c) |-> 0], held |-> {}, pr |-> [p \in Pipes(c) |-> Idle], free |-> 0,
          asked |-> {}, mine |-> {}, got |-> 0, out |-> <<>>, refused |-> {}, ini |-> [p \in Pipes(c) |-> {}], fw |-> {}, fgot |-> {}, fno |-> {}, bad |-> {}, rel |-> {}, rok |-> {}, rbad |-> {}]

RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
Total(c, s) == Sum(s.mem, Pipes(c))
Members(c, s) == {p \in Pipes(c) : s.mem[p] > 0}
Put(f, k, d) == IF k \in DOMAIN f /\ f[k] + d = 0 THEN [x \in DOMAIN f \ {k} |-> f[x]] ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN (IF k \in DOMAIN f THEN f[k] ELSE 0) + d ELSE f[x]]
Has(f, k) == k \in DOMAIN f /\ f[k] > 0

\* what the manager does unseen: take a pipeline (or find none), and give a pipeline back whose run has ended
Over(c, s, p) == s.pr[p].on /\ p \notin s.held /\ (IF s.pr[p].code = 0 THEN s.pr[p].dn = Els(c, p) ELSE s.pr[p].st = s.pr[p].dn \cup s.pr[p].fl)
Hidden(c, s) ==
    {[s EXCEPT !.asked = @ \ {t}, !.mine = @ \cup {t}, !.got = @ + 1, !.free = @ - 1] : t \in IF s.free > 0 THEN s.asked ELSE {}}
    \cup {[s EXCEPT !.asked = @ \ {t}, !.refused = @ \cup {t}] : t \in IF s.free = 0 THEN s.asked ELSE {}}
    \cup {[s EXCEPT !.fw = @ \ {t}, !.fgot = @ \cup {t}, !.free = @ - 1] : t \in IF s.free > 0 THEN s.fw ELSE {}}
    \cup {[s EXCEPT !.fw = @ \ {t}, !.fno = @ \cup {t}] : t \in IF s.free = 0 THEN s.fw ELSE {}}
    \cup {IF x[2] \in s.held THEN [s EXCEPT !.rel = @ \ {x}, !.held = @ \ {x[2]}, !.rok = @ \cup {x[1]}, !.free = @ + 1]
          ELSE [s EXCEPT !.rel = @ \ {x}, !.rbad = @ \cup {x[1]}] : x \in s.rel}
    \cup {[s EXCEPT !.pr[p] = Idle, !.out = Put(@, s.pr[p].code, 1), !.free = @ + 1] : p \in {q \in Pipes(c) : Over(c, s, q)}}
RECURSIVE Close(_, _, _)
Close(c, new, all) ==
    LET n == (UNION {Hidden(c, s) : s \in new}) \ all IN IF n = {} THEN all ELSE Close(c, n, all \cup n)

Quiet(c, s) == s.asked = {} /\ s.mine = {} /\ s.fw = {} /\ s.fgot = {} /\ \A p \in Pipes(c) : ~s.pr[p].on
If(b, s) == IF b THEN {s} ELSE {}

Call(c, s, v) ==
    CASE v.s = "mgr_run"   -> {IF s.up THEN [s EXCEPT !.asked = @ \cup {v.t}] ELSE [s EXCEPT !.bad = @ \cup {v.t}]}
      [] v.s = "mgr_fetch" -> {[s EXCEPT !.fw = @ \cup {v.t}]}
      [] v.s = "mgr_release" -> {[s EXCEPT !.rel = @ \cup {<<v.t, v.p>>}]}
      [] v.s = "mgr_frun"  -> If(v.p \in s.held /\ ~s.pr[v.p].on, [s EXCEPT !.pr[v.p].on = TRUE])
      [] OTHER -> {s}
Ret(c, s, v) ==
    CASE v.s = "mgr_run"   ->
           If(v.t \in s.mine /\ Has(s.out, v.n), [s EXCEPT !.out = Put(@, v.n, -1), !.mine = @ \ {v.t}])
           \cup If(v.n = ERR /\ v.t \in s.refused, [s EXCEPT !.refused = @ \ {v.t}])
           \cup If(v.n = ERR /\ v.t \in s.bad, [s EXCEPT !.bad = @ \ {v.t}])
      [] v.s = "mgr_fetch" ->
           IF v.a = 0 THEN If(v.t \in s.fno, [s EXCEPT !.fno = @ \ {v.t}])
           ELSE If(v.t \in s.fgot /\ v.a \in Members(c, s) \ s.held /\ ~s.pr[v.a].on, [s EXCEPT !.fgot = @ \ {v.t}, !.held = @ \cup {v.a}])
      [] v.s = "mgr_frun"  -> If(s.pr[v.p].on /\ v.n = (IF v.p \in s.pup THEN s.pr[v.p].code ELSE ERR)
                                 /\ (s.pr[v.p].code # 0 \/ v.p \notin s.pup \/ s.pr[v.p].dn = Els(c, v.p)) /\ s.pr[v.p].st = s.pr[v.p].dn \cup s.pr[v.p].fl,
                                 [s EXCEPT !.pr[v.p] = Idle])
      [] v.s = "mgr_release" -> IF v.n = 0 THEN If(v.t \in s.rok, [s EXCEPT !.rok = @ \ {v.t}]) ELSE If(v.n = ERR /\ v.t \in s.rbad, [s EXCEPT !.rbad = @ \ {v.t}])
      [] v.s = "mgr_add"     -> IF s.up THEN If(v.n # 0, s) ELSE If(v.n = 0, [s EXCEPT !.mem[v.p] = @ + 1, !.free = @ + 1])
      [] v.s = "mgr_remove"  -> IF s.up THEN If(v.n # 0, s) ELSE If(v.n = 0, [s EXCEPT !.mem[v.p] = 0, !.free = @ - s.mem[v.p]])
      [] v.s = "mgr_clear"   -> IF s.up THEN If(v.n # 0, s) ELSE If(v.n = 0, [s EXCEPT !.mem = [p \in Pipes(c) |-> 0], !.free = 0, !.held = {}])
      [] v.s = "mgr_size"    -> If(v.a = Total(c, s), s)
      [] v.s = "mgr_find"    -> If(v.a = (IF s.mem[v.p] > 0 THEN 1 ELSE 0), s)
      [] v.s = "mgr_init"    ->
           LET ok == ~s.up /\ s.held = {} /\ \A p \in Members(c, s) : s.mem[p] = 1 /\ p \notin s.pup /\ c.fail[p] = 0
           IN  IF ok THEN If(v.n = 0 /\ \A p \in Members(c, s) : s.ini[p] = Els(c, p),
                             [s EXCEPT !.up = TRUE, !.pup = Members(c, s)])
               ELSE IF s.up \/ s.held # {} THEN If(v.n # 0, s)
               \* some pipelines have been initialised, but the manager has not
               ELSE If(v.n # 0, [s EXCEPT !.pup = @ \cup {p \in Members(c, s) : c.fail[p] = 0}])
      [] v.s = "mgr_destroy" ->
           IF ~s.up THEN If(v.n # 0, s)
           ELSE IF s.free < Total(c, s) THEN If(v.n # 0 /\ \A p \in Members(c, s) : s.ini[p] = Els(c, p), s)
           ELSE If(v.n = 0 /\ Quiet(c, s) /\ \A p \in Members(c, s) : s.ini[p] = {}, [s EXCEPT !.up = FALSE, !.pup = {}])
      [] OTHER -> {s}

Begin(c, s, p, e) ==
    LET r == s.pr[p]
        go(t) == If(e \in Els(c, p) /\ p \in t.pup /\ e \notin t.pr[p].st /\ Dep(c, p, e) \subseteq t.pr[p].dn, [t EXCEPT !.pr[p].st = @ \cup {e}])
    IN  IF r.on THEN go(s)
        ELSE IF p \in Members(c, s) /\ p \notin s.held /\ s.got > 0 THEN go([s EXCEPT !.got = @ - 1, !.pr[p].on = TRUE])
        ELSE {}
\* an element that fails never counts as done for those that depend on it
End(c, s, p, e, n) ==
    IF ~s.pr[p].on \/ e \notin s.pr[p].st \/ e \in s.pr[p].dn \cup s.pr[p].fl THEN {}
    ELSE {[s EXCEPT !.pr[p].dn = IF n = 0 THEN @ \cup {e} ELSE @, !.pr[p].fl = IF n = 0 THEN @ ELSE @ \cup {e},
                    !.pr[p].code = IF n = 0 THEN @ ELSE n]}

Step1(c, s, v) ==
    CASE v.v = "call" -> Call(c, s, v)
      [] v.v = "ret"  -> Ret(c, s, v)
      [] v.v = "rb"   -> Begin(c, s, v.p, v.e)
      [] v.v = "re"   -> End(c, s, v.p, v.e, v.n)
      [] v.v = "ie"   -> If(v.e \notin s.ini[v.p] /\ ~s.up, [s EXCEPT !.ini[v.p] = IF v.n = 0 THEN @ \cup {v.e} ELSE @])
      [] v.v = "de"   -> If(v.e \in s.ini[v.p] /\ ~s.pr[v.p].on, [s EXCEPT !.ini[v.p] = @ \ {v.e}])
      [] v.v = "end"  -> If(Quiet(c, s), s)
      [] v.v = "fault" -> {}
      [] OTHER -> {s}
Step(c, s, v) == LET n == Step1(c, s, v) IN Close(c, n, n)
=============================================================================
