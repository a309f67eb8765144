--------------------------------- MODULE Event ---------------------------------
(* An event of a pipeline.  A synchronous notification triggers it once, in the  *)
(* notifying thread, before it returns; an asynchronous one triggers it once,    *)
(* elsewhere, and has ended by the time its strategy promises: 0 the return of   *)
(* run(), 1 the return of destroy(), 2 none.  Notifications that fail trigger    *)
(* nothing.  c.known = 0: there is no such event.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FIN == 0   DES == 1   NOWAIT == 2
Class == {FIN, DES, NOWAIT}
None == <<>>
\* cur[t]: the notification thread t is making or whose future it keeps; aw[k]: asynchronous notifications nobody asks for any more that have not
\* been triggered yet, by what they promise; run[t]: what thread t is triggering: <<"cur", by>> or <<"aw", class>>
S0(c) == [cur |-> [t \in {} |-> 0], aw |-> [k \in Class |-> 0], run |-> [t \in {} |-> 0]]

With(f, t, x) == [u \in DOMAIN f \cup {t} |-> IF u = t THEN x ELSE f[u]]
Less(f, t) == [u \in DOMAIN f \ {t} |-> f[u]]
RunOf(s, by) == {t \in DOMAIN s.run : s.run[t] = <<"cur", by>>}

\* nobody asks for the notification of thread t any more
Forget(s, t) ==
    LET x == s.cur[t]
        r == [s EXCEPT !.cur = Less(@, t)]
    IN  IF x.ph = "done" THEN r
        ELSE IF x.ph = "wait" THEN [r EXCEPT !.aw[x.k] = @ + 1]
        ELSE [r EXCEPT !.run = [u \in DOMAIN @ |-> IF u \in RunOf(s, t) THEN <<"aw", x.k>> ELSE @[u]]]

\* what must have ended when run() returns: what elements have asked to be waited for
RunDone(s) ==
    /\ s.aw[FIN] = 0
    /\ \A t \in DOMAIN s.run : s.run[t] # <<"aw", FIN>>
    /\ \A t \in DOMAIN s.cur : s.cur[t].ty = 1 /\ s.cur[t].k = FIN => s.cur[t].ph = "done"
\* a daemon may still notify while the pipeline goes down, and a notification nobody waits for may be dropped
DestroyDone(s) ==
    /\ s.aw[DES] = 0
    /\ DOMAIN s.run = {}
    /\ \A t \in DOMAIN s.cur : s.cur[t].ne /\ s.cur[t].k = DES => s.cur[t].ph = "done"
Down(s) == [s EXCEPT !.aw = [k \in Class |-> 0], !.cur = [t \in {u \in DOMAIN @ : ~@[u].ne} |-> @[t]]]

Step(c, s, v) ==
    CASE v.v = "ret" /\ v.s = "run" -> IF RunDone(s) THEN {s} ELSE {}
      [] v.v = "ret" /\ v.s \in {"destroy", "process"} -> IF DestroyDone(s) THEN {Down(s)} ELSE {}
      [] v.v = "nb" ->
           LET t == IF v.t \in DOMAIN s.cur THEN Forget(s, v.t) ELSE s
           IN  IF v.t \in DOMAIN s.cur /\ ~s.cur[v.t].ne THEN {}
               ELSE {[t EXCEPT !.cur = With(@, v.t, [ty |-> v.a, k |-> IF v.n = FIN /\ v.s = "d" THEN NOWAIT ELSE v.n, w |-> v.w, ph |-> "wait", ne |-> FALSE])]}
      [] v.v = "ne" ->
           IF v.t \notin DOMAIN s.cur THEN {}
           ELSE LET x == s.cur[v.t]
                IN  IF x.ne THEN {}
                    ELSE IF v.n # 0 THEN (IF c.known = 0 /\ x.ph = "wait" THEN {[s EXCEPT !.cur = Less(@, v.t)]} ELSE {})
                    ELSE IF c.known = 0 THEN {}
                    ELSE IF x.ty = 0 THEN (IF x.ph = "done" THEN {[s EXCEPT !.cur = Less(@, v.t)]} ELSE {})
                    ELSE {IF x.w = 1 THEN [s EXCEPT !.cur[v.t].ne = TRUE] ELSE Forget(s, v.t)}
      \* its future has become ready
      [] v.v = "nw" ->
           IF v.t \notin DOMAIN s.cur THEN {} ELSE IF s.cur[v.t].ne /\ s.cur[v.t].ph = "done" THEN {[s EXCEPT !.cur = Less(@, v.t)]} ELSE {}
      [] v.v = "tb" ->
           LET own == v.t \in DOMAIN s.cur /\ s.cur[v.t].ty = 0 /\ s.cur[v.t].ph = "wait"
               by  == {u \in DOMAIN s.cur : s.cur[u].ph = "wait" /\ s.cur[u].ty = 1 /\ u # v.t}
           IN  IF c.known = 0 \/ v.t \in DOMAIN s.run THEN {}
               \* within a notification a thread triggers nothing else
               ELSE IF v.t \in DOMAIN s.cur /\ ~s.cur[v.t].ne /\ ~own THEN {}
               ELSE IF own THEN {[s EXCEPT !.cur[v.t].ph = "run", !.run = With(@, v.t, <<"cur", v.t>>)]}
               ELSE {[s EXCEPT !.cur[u].ph = "run", !.run = With(@, v.t, <<"cur", u>>)] : u \in by}
                    \* among those nobody asks for and that run() does not wait for, which one it is makes no difference
                    \cup {[s EXCEPT !.aw[k] = @ - 1, !.run = With(@, v.t, <<"aw", k>>)] : k \in {j \in Class : s.aw[j] > 0 /\ ~(j = NOWAIT /\ s.aw[DES] > 0)}}
      [] v.v = "te" ->
           IF v.t \notin DOMAIN s.run THEN {}
           ELSE LET x == s.run[v.t]
                    r == [s EXCEPT !.run = Less(@, v.t)]
                IN  {IF x[1] = "cur" THEN [r EXCEPT !.cur[x[2]].ph = "done"] ELSE r}
      [] v.v = "end" -> IF DOMAIN s.run # {} THEN {} ELSE {s}
      [] v.v = "fault" -> {}
      [] OTHER -> {s}
=============================================================================
