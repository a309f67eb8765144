-------------------------------- MODULE ParamMC --------------------------------
(* Every behaviour of Param for a few operations by two or three elements at     *)
(* once, and for the life cycle of a pipeline with a parameter.  What a user     *)
(* relies on is stated over the events alone (history h).                        *)
EXTENDS Param, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
Most == IF Deep THEN 4 ELSE 5           \* operations
NT == IF Deep THEN 3 ELSE 2
T == 1..NT                             \* threads; element t runs in thread t
VARIABLES c, S, h
vars == <<c, S, h>>
Chk(name, ok) == IF ok THEN {} ELSE {name}
Ev(v, t, s, n, a, l) == [v |-> v, t |-> t, e |-> t, s |-> s, n |-> n, a |-> a, l |-> l]
Event(v, k, bad) == LET X == StepSet(c, S, v) IN X # {} /\ S' = X /\ h' = [k EXCEPT !.bad = @ \cup bad] /\ UNCHANGED c

No == [op |-> "", n |-> 0, cls |-> 0, max |-> 0, seen |-> {}, lok |-> {}]
\* op[t]: the operation of thread t, with what was certain when it began: the class and the kind of the parameter, the largest value returned, whose lookups had ended
\* cls: the class of the parameter when certain (-1: it certainly is not there); vals: returned; incs: increments begun; got: those whose lookups succeeded;
\* try: elements that have begun a lookup; lk, lok: the same since the beginning, removals or not; mk: types that creations have asked for; tr: traced (0: not certain)
Init == /\ c \in {[mode |-> "ops"], [mode |-> "life"]}
        /\ S = {S0(c)}
        /\ h = [op |-> [t \in T |-> No], k |-> 0, cls |-> -1, vals |-> {}, incs |-> 0, got |-> {}, try |-> {}, mk |-> {}, tr |-> 0, bad |-> {},
                pc |-> 1, in |-> FALSE, there |-> FALSE, up |-> 0, set |-> 0, setn |-> 0, res |-> 0, resn |-> 0, ran |-> FALSE, ini |-> 0, lk |-> {}, lok |-> {}, gone |-> FALSE]
Free == {t \in T : h.op[t].op = ""}
Begin1(t, s, n) ==
    /\ c.mode = "ops" /\ h.k < Most /\ t \in Free
    /\ (s = "premove" => Free = T) /\ \A u \in T : h.op[u].op # "premove"        \* nobody uses a parameter while it is removed
    /\ Event(Ev("pb", t, s, n, 0, <<>>),
             [h EXCEPT !.k = @ + 1, !.op[t] = [op |-> s, n |-> n, cls |-> h.cls, max |-> IF h.vals = {} THEN 0 ELSE CHOOSE m \in h.vals : \A x \in h.vals : x <= m, seen |-> h.got, lok |-> h.lok],
                       !.incs = IF s = "pinc" THEN @ + 1 ELSE @, !.try = IF s \in {"pget", "pinc", "ptrace"} THEN @ \cup {t} ELSE @,
                       !.lk = IF s \in {"pget", "pinc", "ptrace"} THEN @ \cup {t} ELSE @,
                       !.mk = IF s = "pcreate" THEN @ \cup {n} ELSE @], {})
Made(cl) == \E n \in h.mk : Class(n) = cl
Finish1(t, n, l) ==
    /\ c.mode = "ops" /\ t \notin Free
    /\ LET o == h.op[t]
           ty == IF o.op = "pget" THEN o.n ELSE 1
           ok == (o.op \in {"pinc", "ptrace"} /\ n # -1) \/ (o.op = "pget" /\ n = 1)          \* found
           done == [h EXCEPT !.op[t] = No]
           found == [done EXCEPT !.cls = Class(ty), !.got = @ \cup {t}, !.lok = @ \cup {t}]
       IN  Event(Ev("pe", t, o.op, n, 0, l),
                 CASE o.op = "pcreate" -> (IF n = 0 THEN [done EXCEPT !.cls = Class(o.n)] ELSE done)
                   [] o.op = "premove" -> [done EXCEPT !.cls = -1, !.vals = {}, !.incs = 0, !.mk = {}, !.got = {}, !.try = {}, !.tr = 0]
                   [] o.op = "pinc" -> (IF ok THEN [found EXCEPT !.vals = @ \cup {n}] ELSE done)
                   [] o.op = "ptrace" -> (IF ok THEN [found EXCEPT !.tr = IF n = 0 THEN 3 ELSE 1] ELSE done)
                   [] o.op = "pget" -> (IF ok THEN found ELSE done)
                   [] OTHER -> done,
                 CASE o.op = "pcreate" ->
                        IF n = 0 THEN Chk("one type at a time", h.cls \in {-1, 0, Class(o.n)}) ELSE Chk("refused for another type", \E m \in h.mk : Class(m) # Class(o.n)) \cup Chk("not for its own", o.cls # Class(o.n))
                   [] o.op = "premove" -> Chk("removes what is there", (n = 0) = (h.cls > 0))
                   [] o.op = "pkeys" -> Chk("listed", (n = 1 => h.mk # {}) /\ (o.cls > 0 => n = 1))
                   [] o.op = "pcon" -> Chk("known to use it", (n = 1 => t \in h.lk) /\ (t \in o.lok => n = 1))
                   [] ok -> Chk("of its type", Made(Class(ty)) /\ h.cls \in {-1, Class(ty)})
                            \cup Chk("no update is lost", o.op = "pinc" => n \in 1..h.incs /\ n \notin h.vals /\ n > o.max)
                            \cup Chk("the trace", o.op = "ptrace" => IF n = -2 THEN 1 \in h.mk /\ h.tr # 3
                                                                    ELSE /\ 3 \in h.mk /\ h.tr # 1 /\ \A i \in DOMAIN l : l[i] \in h.try /\ \A j \in DOMAIN l : i # j => l[i] # l[j]
                                                                         /\ o.seen \cup {t} \subseteq {l[i] : i \in DOMAIN l})
                   [] OTHER -> Chk("found when there", o.cls # Class(ty)))
Lists == UNION {{f \in [1..k -> T] : \A i, j \in 1..k : i # j => f[i] # f[j]} : k \in 0..NT}
Ops == {<<"pcreate", 1>>, <<"pcreate", 2>>, <<"pcreate", 3>>, <<"pget", 1>>, <<"pget", 2>>, <<"pinc", 0>>, <<"ptrace", 0>>, <<"premove", 0>>, <<"pcon", 0>>, <<"pkeys", 0>>}
\* premove forgets who had begun a lookup, connections stay
NextOps == \/ \E t \in T : \/ \E o \in Ops : Begin1(t, o[1], o[2])
                           \/ \E n \in -2..Most : Finish1(t, n, <<>>)
                           \/ (h.op[t].op = "ptrace" /\ \E l \in Lists : l # <<>> /\ Finish1(t, 0, l))
           \/ (h.k = Most /\ Free = T /\ UNCHANGED vars)

\* the life cycle: a pipeline with (or without) the parameter
Prog == <<"create", "init", "run", "run", "destroy", "end">>
Skip(p) == p = 1 \/ p = 4
Now == IF h.pc > Len(Prog) THEN "over" ELSE Prog[h.pc]
Nx == [h EXCEPT !.in = FALSE, !.pc = @ + 1]
Un == h.there /\ ~h.gone
NextLife ==
    c.mode = "life" /\
    \/ (h.pc <= Len(Prog) /\ Skip(h.pc) /\ ~h.in /\ h' = Nx /\ UNCHANGED <<c, S>>)
    \/ (Now = "create" /\ ~h.in /\ Event([Ev("pb", 1, "pcreate", 1, 0, <<>>) EXCEPT !.e = 0], [h EXCEPT !.in = TRUE], {}))
    \/ (Now = "create" /\ h.in /\ \E n \in {0, -1} : Event([Ev("pe", 1, "pcreate", n, 0, <<>>) EXCEPT !.e = 0], [Nx EXCEPT !.there = TRUE], Chk("created", n = 0)))
    \/ (Now \in {"init", "run", "destroy"} /\ ~h.in
        /\ Event(Ev("call", 1, Now, 0, 1, <<>>), [h EXCEPT !.in = TRUE, !.set = 0, !.setn = 0, !.res = 0, !.resn = 0, !.ran = FALSE, !.ini = 0], {}))
    \/ (h.in /\ \E v \in {"pinit", "pdestroy"} : (v = "pinit") = (Now = "init") /\ Event(Ev(v, 1, "", 0, 1, <<>>), [h EXCEPT !.ini = @ + 1],
            Chk("init and destroy of what is there, once, with the pipeline's", Un /\ h.ini = 0 /\ Now = (IF v = "pinit" THEN "init" ELSE "destroy"))))
    \/ (h.in /\ \E n \in {0, -7} : Event(Ev("psetup", 1, "", n, 1, <<>>), [h EXCEPT !.set = @ + 1, !.setn = n], Chk("setup first and once", Now = "run" /\ Un /\ h.set = 0 /\ ~h.ran /\ h.res = 0)))
    \/ (h.in /\ Now = "run" /\ ~h.ran /\ h.res = 0 /\ Event(Ev("rb", 2, "", 0, 0, <<>>), [h EXCEPT !.ran = TRUE], Chk("elements after setup", (Un => h.set = 1) /\ h.setn = 0)))
    \/ (h.in /\ \E n \in {0, -103} : Event(Ev("preset", 1, "", n, 1, <<>>), [h EXCEPT !.res = @ + 1, !.resn = n], Chk("reset last and once", Now = "run" /\ Un /\ h.res = 0 /\ h.set = 1 /\ h.setn = 0)))
    \/ (h.in /\ Now \in {"init", "run", "destroy"} /\ \E n \in IF Now = "run" THEN {0, -103, -7} ELSE {0} :
           Event(Ev("ret", 1, Now, n, 1, <<>>), [Nx EXCEPT !.up = 0],
                 IF Now # "run" THEN Chk("init and destroy happen", Un => h.ini = 1)
                 ELSE Chk("a failed setup fails the run", h.setn # 0 => n < 0 /\ ~h.ran) \cup Chk("setup happens", Un => h.set = 1)
                      \cup Chk("reset with the status of the run", Un /\ h.setn = 0 => h.res = 1 /\ h.resn = n)))
    \/ (~h.in /\ h.pc > 5 /\ Event(Ev("pdtor", 1, "", 0, 1, <<>>), [h EXCEPT !.gone = TRUE], Chk("destroyed once", Un)))
    \/ (~h.in /\ h.pc = Len(Prog) /\ Event(Ev("end", 1, "", 0, 0, <<>>), Nx, Chk("destroyed", ~Un)))
    \/ (h.pc > Len(Prog) /\ UNCHANGED vars)
Next == (c.mode = "ops" /\ NextOps) \/ NextLife
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
