-------------------------------- MODULE EventMC --------------------------------
(* Every behaviour of Event for a few threads.  Thread 1 is the main program:    *)
(* init, runs and destroy; 2 and 3 execute elements (they notify during run()    *)
(* only); 4 and 5 are threads of the pool.  What a user relies on is stated over *)
(* the events alone (history h: every notification by number).                   *)
EXTENDS Event, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
Most == IF Deep THEN 3 ELSE 2            \* notifications
Prog == <<"run", "run", "destroy">>
VARIABLES c, S, h
vars == <<c, S, h>>
Ev(v, t, s, n, a, w) == [v |-> v, t |-> t, s |-> s, n |-> n, a |-> a, w |-> w, ms |-> 0]
Cfgs == [known : {0, 1}]
\* h.nt: all notifications: by whom, type, strategy, kept, phase of the call (in: within notify, kept: waiting for its future, out);
\* h.on[t]: the trigger under way in thread t; h.no[t]: its number; h.b, h.e, h.ended: triggers begun and ended
Init == c \in Cfgs /\ S = {S0(c)} /\ h = [pc |-> 1, in |-> FALSE, nt |-> <<>>, on |-> {}, no |-> [t \in 2..5 |-> 0], ended |-> {}, b |-> 0, e |-> 0, bad |-> {}]
Chk(name, ok) == IF ok THEN {} ELSE {name}
Event(v, k, bad) == LET X == UNION {Step(c, s, v) : s \in S} IN X # {} /\ S' = X /\ h' = [k EXCEPT !.bad = @ \cup bad] /\ UNCHANGED c
Cnt(P(_)) == Cardinality({i \in DOMAIN h.nt : P(h.nt[i])})
Busy(t) == \E i \in DOMAIN h.nt : h.nt[i].t = t /\ h.nt[i].ph # "out"
Mine(t) == CHOOSE i \in DOMAIN h.nt : h.nt[i].t = t /\ h.nt[i].ph # "out"
Elem == {2, 3}  Pool == {4}
Call == ~h.in /\ h.pc <= Len(Prog) /\ Event(Ev("call", 1, Prog[h.pc], 0, 0, 0), [h EXCEPT !.in = TRUE], {}) 
\* the elements of a run have ended when it returns
Valid(x) == x.ok
Ret == /\ h.in /\ \A t \in Elem : ~Busy(t)
       /\ LET d == Prog[h.pc] = "destroy"
              must == IF d THEN Cnt(LAMBDA x : x.ok /\ x.k \in {FIN, DES}) ELSE Cnt(LAMBDA x : x.ok /\ x.k = FIN)
          IN  Event(Ev("ret", 1, Prog[h.pc], 0, 0, 0), [h EXCEPT !.in = FALSE, !.pc = @ + 1],
                    Chk("as many as were promised", h.e >= must) \cup Chk("quiet", d => h.on = {}))
Notify(t, ty, k, w) ==
    /\ h.in /\ Prog[h.pc] = "run" /\ ~Busy(t) /\ t \notin h.on /\ Len(h.nt) < Most
    /\ (ty = 0 => k = FIN /\ w = 0)
    /\ Event(Ev("nb", t, "e", k, ty, w), [h EXCEPT !.nt = Append(@, [t |-> t, ty |-> ty, k |-> k, w |-> w, ph |-> "in", b0 |-> h.b, ok |-> TRUE, own |-> 0])], {})
Back(t, n) ==
    /\ Busy(t) /\ h.nt[Mine(t)].ph = "in" /\ t \notin h.on
    /\ LET i == Mine(t)  x == h.nt[i]
       IN  Event(Ev("ne", t, "e", n, 0, 0), [h EXCEPT !.nt[i].ph = IF n = 0 /\ x.w = 1 THEN "kept" ELSE "out", !.nt[i].ok = n = 0],
                 Chk("unknown fails", (n # 0) = (c.known = 0)) \cup Chk("once, in its thread", x.ty = 0 /\ n = 0 => x.own = 1)
                 \cup Chk("a failed one triggers nothing", n # 0 => x.own = 0))
Ready(t) ==
    /\ Busy(t) /\ h.nt[Mine(t)].ph = "kept"
    /\ LET i == Mine(t) IN Event(Ev("nw", t, "e", 0, 0, 0), [h EXCEPT !.nt[i].ph = "out"], Chk("ended before its future is ready", \E j \in h.ended : j > h.nt[i].b0))
TrigB(t) ==
    /\ t \notin h.on
    /\ LET own == Busy(t) /\ h.nt[Mine(t)].ph = "in" /\ h.nt[Mine(t)].ty = 0
           k == [h EXCEPT !.on = @ \cup {t}, !.no[t] = h.b + 1, !.b = @ + 1]
       IN  Event(Ev("tb", t, "", 0, 0, 0), IF own THEN [k EXCEPT !.nt[Mine(t)].own = @ + 1] ELSE k,
                 Chk("known", c.known = 1) \cup Chk("each once", h.b < Cnt(LAMBDA x : x.ok)))
TrigE(t) == t \in h.on /\ Event(Ev("te", t, "", 0, 0, 0), [h EXCEPT !.on = @ \ {t}, !.e = @ + 1, !.ended = @ \cup {h.no[t]}], {})
Over == h.pc > Len(Prog)
Next == \/ Call \/ Ret \/ (Over /\ UNCHANGED vars)
        \/ (~Over /\ (\/ \E t \in Elem : (\E ty \in {0, 1}, k \in Class, w \in {0, 1} : Notify(t, ty, k, w)) \/ Back(t, 0) \/ Back(t, -1) \/ Ready(t)
                      \/ \E t \in Elem \cup Pool : TrigB(t) \/ TrigE(t)))
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
