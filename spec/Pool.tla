--------------------------------- MODULE Pool ---------------------------------
(* What a user of CGraph's thread pool may observe.                             *)
(*                                                                              *)
(* Step(c, s, v): the states the pool may be in after state s once the event v  *)
(* has been seen.  Events: put/putr (a task is handed over / the call returned),*)
(* tb/te (a task begins / ends on a thread), call/ret of get, release, init,    *)
(* destroy, setcfg, new and delete, gcall/gfin/gret (a group is submitted, its  *)
(* callback runs, submit returns), all (every task handed over has been run).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BROKEN == -98
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SLACK == 5

(* c.n tasks with results c.ret; c.d primary threads, c.max threads at most,    *)
(* c.sec secondary threads at first, c.mon monitor; c.grp[g] tasks of group g,  *)
(* c.fin[g] = 1 iff it has a callback                                           *)
Sec(c) == Max(0, c.max - c.d)              \* room for secondary threads
Tasks(c) == 1..c.n

T0 == [ph |-> "new", kind |-> "n", pr |-> 0, rt |-> FALSE, th |-> 0, ms |-> 0, ahead |-> {}, lost |-> FALSE, got |-> FALSE]
G0 == [ph |-> "new", t0 |-> 0, lim |-> 0, st |-> 0]
S0(c) == [pool |-> "new", t |-> [i \in Tasks(c) |-> T0], g |-> [i \in DOMAIN c.grp |-> G0],
          sec |-> 0, rel |-> 0, low |-> {}, seen |-> {}, call |-> <<>>]

Running(c, s) == {t \in Tasks(c) : s.t[t].ph = "run"}
OnSec(c, s)   == {t \in Running(c, s) : s.t[t].th = -2}
Prio(s, t)    == s.t[t].kind \in {"p", "long"}

(* ------------------------------------------------------------------- tasks *)
EvPut(c, s, v) ==
    IF s.pool # "up" \/ s.t[v.e].ph # "new" THEN {}
    ELSE {[s EXCEPT !.t[v.e] = [T0 EXCEPT !.ph = "put", !.kind = v.s, !.pr = v.n,
                                          !.ahead = {u \in Tasks(c) : Prio(s, u) /\ s.t[u].ph = "put" /\ s.t[u].rt}],
                    !.low = IF v.s = "p" /\ s.sec = 0 THEN @ \cup {v.e} ELSE @]}

\* a priority task finds, or starts, a thread that may run it
EvPutr(c, s, v) ==
    LET u == [s EXCEPT !.t[v.e].rt = TRUE, !.low = @ \ {v.e}]
    IN  IF s.t[v.e].rt \/ s.t[v.e].ph = "new" THEN {}
        ELSE IF v.e \in s.low
        THEN {[u EXCEPT !.sec = k] : k \in {x \in {s.sec, s.sec + 1} : x <= Sec(c) /\ (x > 0 \/ Sec(c) = 0)}}
        ELSE {u}

(* threads that may have taken a task off the queue without having begun it *)
Alive(c, s)  == IF c.mon = 1 THEN Sec(c) + 1 ELSE Min(Sec(c), s.sec + Cardinality(s.low)) + s.rel
Better(c, s, t) ==
    {u \in Tasks(c) : /\ Prio(s, u) /\ s.t[u].ph = "put" /\ s.t[u].pr > s.t[t].pr /\ ~s.t[u].lost
                      /\ u \in s.t[t].ahead \cup (IF Alive(c, s) = 1 THEN s.seen ELSE {})}

EvTb(c, s, v) ==
    LET t == v.e
    IN  IF s.t[t].ph # "put" \/ s.pool \notin {"up", "opening", "closing"} THEN {}
        ELSE IF v.n >= 0
        THEN IF v.n < c.d /\ ~Prio(s, t) /\ \A u \in Running(c, s) : s.t[u].th # v.n
             THEN {[s EXCEPT !.t[t].ph = "run", !.t[t].th = v.n]} ELSE {}
        ELSE IF v.n = -2
        THEN IF /\ Cardinality(OnSec(c, s)) < Alive(c, s)
                /\ Prio(s, t) => Cardinality(Better(c, s, t)) <= Alive(c, s) - 1 - Cardinality(OnSec(c, s))
             THEN {[s EXCEPT !.t[t].ph = "run", !.t[t].th = -2]} ELSE {}
        ELSE {}

EvTe(c, s, v) ==
    LET t == v.e
    IN  IF s.t[t].ph # "run" \/ v.n # c.ret[t] THEN {}
        ELSE {[s EXCEPT !.t[t].ph = "done", !.t[t].ms = v.ms,
                        !.seen = IF s.t[t].th = -2 THEN {u \in Tasks(c) : Prio(s, u) /\ s.t[u].ph = "put" /\ s.t[u].rt} ELSE @]}

EvGet(c, s, v) ==
    LET x == s.t[v.e]
    IN  IF x.got THEN {}
        ELSE IF x.ph = "done" /\ v.n = c.ret[v.e] THEN {[s EXCEPT !.t[v.e].got = TRUE]}
        ELSE IF x.ph = "put" /\ x.lost /\ v.n = BROKEN THEN {[s EXCEPT !.t[v.e].got = TRUE, !.t[v.e].ph = "gone"]}
        ELSE {}

(* ------------------------------------------------------------------ groups *)
Over(c, s, g) == \A i \in DOMAIN c.grp[g] : s.t[c.grp[g][i]].ph = "done"
RECURSIVE Last(_, _, _, _)
Last(c, s, g, i) == IF i = 0 THEN s.g[g].t0 ELSE Max(s.t[c.grp[g][i]].ms, Last(c, s, g, i - 1))
Verdict(c, s, g, n, ms) ==
    LET x == s.g[g]  end == x.t0 + x.lim
    IN  /\ ms <= end + SLACK
        /\ IF n = 0 THEN Over(c, s, g) /\ ms <= Last(c, s, g, Len(c.grp[g])) + SLACK
           ELSE /\ ms >= end - 1
                /\ \E i \in DOMAIN c.grp[g] : LET y == s.t[c.grp[g][i]] IN y.ph # "done" \/ y.ms >= end - 1

EvGCall(c, s, v) == IF s.g[v.e].ph = "new" THEN {[s EXCEPT !.g[v.e] = [ph |-> "call", t0 |-> v.ms, lim |-> v.n, st |-> 0]]} ELSE {}
EvGFin(c, s, v)  == IF s.g[v.e].ph = "call" /\ c.fin[v.e] = 1 /\ Verdict(c, s, v.e, v.n, v.ms)
                    THEN {[s EXCEPT !.g[v.e].ph = "fin", !.g[v.e].st = v.n]} ELSE {}
EvGRet(c, s, v)  == IF \/ c.fin[v.e] = 1 /\ s.g[v.e].ph = "fin" /\ s.g[v.e].st = v.n
                       \/ c.fin[v.e] = 0 /\ s.g[v.e].ph = "call" /\ Verdict(c, s, v.e, v.n, v.ms)
                    THEN {[s EXCEPT !.g[v.e].ph = "ret"]} ELSE {}

(* -------------------------------------------------------------------- pool *)
Lose(c, s) == [s EXCEPT !.t = [t \in Tasks(c) |-> IF s.t[t].ph = "put" THEN [s.t[t] EXCEPT !.lost = TRUE] ELSE s.t[t]]]
Up(c, s)   == [s EXCEPT !.pool = "up", !.sec = Min(c.sec, Sec(c)), !.rel = 0, !.low = {}]

EvCall(c, s, v) ==
    CASE v.s = "get" -> {s}
      [] v.s \in {"destroy", "delete"} -> IF s.pool = "up" THEN {[Lose(c, s) EXCEPT !.pool = "closing"]} ELSE {s}
      [] v.s = "init" -> IF s.pool = "down" THEN {[Up(c, s) EXCEPT !.pool = "opening"]} ELSE {s}
      [] OTHER -> {s}

EvRet(c, s, v) ==
    CASE v.s = "get" -> EvGet(c, s, v)
      [] v.s = "new" -> {Up(c, s)}
      [] v.s = "init" -> IF v.n = 0 THEN {[s EXCEPT !.pool = "up"]} ELSE {}
      [] v.s = "destroy" -> IF v.n # 0 \/ Running(c, s) # {} THEN {} ELSE {[Lose(c, s) EXCEPT !.pool = "down"]}
      [] v.s = "delete" -> IF Running(c, s) # {} THEN {} ELSE {[Lose(c, s) EXCEPT !.pool = "dead"]}
      [] v.s = "setcfg" -> IF (v.n = 0) = (s.pool = "down") THEN {s} ELSE {}
      [] v.s = "release" ->
           IF c.mon = 1 THEN {s}
           ELSE IF v.n = 0 THEN IF v.a <= s.sec THEN {[s EXCEPT !.sec = @ - Max(0, v.a), !.rel = @ + Max(0, v.a)]} ELSE {}
           ELSE IF v.a > s.sec THEN {s} ELSE {}
      [] OTHER -> {}

Step(c, s, v) ==
    CASE v.v = "put"  -> EvPut(c, s, v)
      [] v.v = "putr" -> EvPutr(c, s, v)
      [] v.v = "tb"   -> EvTb(c, s, v)
      [] v.v = "te"   -> EvTe(c, s, v)
      [] v.v = "gcall" -> EvGCall(c, s, v)
      [] v.v = "gfin" -> EvGFin(c, s, v)
      [] v.v = "gret" -> EvGRet(c, s, v)
      [] v.v = "call" -> EvCall(c, s, v)
      [] v.v = "ret"  -> EvRet(c, s, v)
      [] v.v = "isinit" -> IF (v.n = 1) = (s.pool = "up") THEN {s} ELSE {}
      [] v.v = "all"  -> IF \A t \in Tasks(c) : s.t[t].ph \in {"new", "done"} THEN {s} ELSE {}
      [] v.v = "end"  -> IF Running(c, s) = {} /\ \A g \in DOMAIN c.grp : s.g[g].ph \in {"new", "ret"} THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
