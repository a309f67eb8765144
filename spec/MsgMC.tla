--------------------------------- MODULE MsgMC ---------------------------------
(* Every behaviour of Msg for a topic, and for a connection, used by two or      *)
(* three users at once.  What a user relies on is stated over the events alone   *)
(* (history h); messages are numbered by their calls.                            *)
EXTENDS Msg, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
Most == 5                              \* operations
Cfgs == [mode : {IOEnv.MC_MODE}, size : {2, 3}, str : {WAIT, REPLACE, DROP}, u : IF Deep THEN {2, 3} ELSE {2}]
VARIABLES c, S, h
vars == <<c, S, h>>
C == [u |-> c.u, nt |-> 1, nc |-> 1, obj |-> IF c.mode = "ps" THEN 1 ELSE 0]
K == c.size - 1
U == 0..(c.u - 1)
TIMEOUT == 3
Chk(name, ok) == IF ok THEN {} ELSE {name}
Ev(v, u, s, e, n, a, ms) == [v |-> v, u |-> u, e |-> e, s |-> s, n |-> n, a |-> a, ms |-> ms]
Event(v, k, bad) == LET X == StepSet(C, S, v) IN X # {} /\ S' = X /\ h' = [k EXCEPT !.bad = @ \cup bad] /\ UNCHANGED c
Snd == IF c.mode = "sr" THEN "send" ELSE "pub"
Rcv == IF c.mode = "sr" THEN "recv" ELSE "sub"
No == [op |-> "", m |-> 0, ms |-> 0, ret |-> {}, up |-> 0, cap |-> FALSE]
\* m[i]: message i: st "call" (its call has begun), "ok" (its call has returned well), "no" (failed); old: messages returned when it was called;
\* m[i]: message i: st "call" (its call has begun), "ok" (it has returned well), "no" (failed); old: messages whose calls had returned when its began;
\* cap: all places may have been taken at some moment of its call.  op[u]: the call of user u, ret: messages whose calls had returned, up: whether the
\* object was there; got: received; gone: messages of former objects, or sent when there was none; ids: connection ids given out
Init == /\ c \in Cfgs
        /\ S = {S0([u |-> c.u, nt |-> 1, nc |-> 1, obj |-> IF c.mode = "ps" THEN 1 ELSE 0])}
        /\ h = [m |-> <<>>, op |-> [u \in 0..(c.u - 1) |-> No], k |-> 0, up |-> 0, now |-> 0, got |-> {}, gone |-> {}, ids |-> {}, bad |-> {}]
Free == {u \in U : h.op[u].op = ""}
M == DOMAIN h.m
Ok == {i \in M : h.m[i].st = "ok"}
Rcvs(k) == {u \in U : k.op[u].op = Rcv}
Left(k) == {i \in DOMAIN k.m : k.m[i].st # "no"} \ (k.got \cup k.gone)
Fill(k) == [k EXCEPT !.op = [u \in U |-> [@[u] EXCEPT !.cap = @ \/ (k.op[u].op = Snd /\ Cardinality(Left(k) \ {k.op[u].m}) >= K)]]]

\* making and removing the object while nobody else is at work: user 0
Life(op, n, a) ==
    /\ Free = U
    /\ Event(Ev("call", 0, op, 1, n, a, h.now), [h EXCEPT !.op[0] = [No EXCEPT !.op = op], !.k = @ + 1], {})
Make == h.up = 0 /\ h.k < 3 /\ IF c.mode = "sr" THEN Life("create", c.size, 0) ELSE Life("bind", c.size, 1)
Drop == h.up = 2 /\ h.k < Most /\ IF c.mode = "sr" THEN Life("remove", 0, 0) ELSE Life("detach", 0, 1) \/ Life("drop", 0, 0)
LifeRet(n, a) ==
    LET o == h.op[0].op
    IN  /\ o \in {"create", "bind", "remove", "detach", "drop"}
        /\ Event(Ev("ret", 0, o, 1, n, a, h.now),
                 LET d == [h EXCEPT !.op[0] = No]
                 IN  [d EXCEPT !.up = IF o \in {"create", "bind"} THEN 2 ELSE 0, !.gone = M, !.ids = IF o = "bind" THEN @ \cup {a} ELSE @],
                 Chk("it works", n = 0) \cup Chk("new ids", o = "bind" => a \notin h.ids))
Send(u) ==
    /\ h.k < Most /\ u \in Free /\ h.op[0].op \in {"", "send", "pub", "recv", "sub"}
    /\ LET i == Len(h.m) + 1
       IN  Event(Ev("call", u, Snd, 1, i, c.str, h.now),
                 Fill([h EXCEPT !.k = @ + 1, !.m = Append(@, [st |-> "call", old |-> Ok, cap |-> FALSE]), !.op[u] = [No EXCEPT !.op = Snd, !.m = i, !.up = h.up]]), {})
Recv(u) ==
    /\ h.k < Most /\ u \in Free /\ h.op[0].op \in {"", "send", "pub", "recv", "sub"}
    /\ Event(Ev("call", u, Rcv, 1, TIMEOUT, 0, h.now), Fill([h EXCEPT !.k = @ + 1, !.op[u] = [No EXCEPT !.op = Rcv, !.ms = h.now, !.ret = Ok, !.up = h.up]]), {})
\* messages that nobody has received; those that have been kept for sure: with DROP a message is not kept if all places may have been taken
Due(x) == (x \ h.got) \ h.gone
Kept(i) == c.str = DROP => ~h.m[i].cap
Newer(i) == {j \in M \ {i} : j \notin h.m[i].old}
SendRet(u, n) ==
    /\ h.op[u].op = Snd
    /\ LET o == h.op[u]
       IN  Event(Ev("ret", u, Snd, 1, n, 0, h.now), Fill([h EXCEPT !.op[u] = No, !.m[o.m].st = IF n = 0 THEN "ok" ELSE "no", !.m[o.m].cap = o.cap]),
                 Chk("accepted where it exists", c.mode = "sr" => (n = 0) = (o.up = 2))
                 \cup Chk("no more than fit", c.str = WAIT /\ n = 0 /\ o.up = 2 => Cardinality(Due(Ok \cup {o.m})) <= K + Cardinality(Rcvs(h))))
RecvRet(u, n, a) ==
    /\ h.op[u].op = Rcv
    /\ LET o == h.op[u]
           others == Cardinality(Rcvs(h)) - 1
           over == {i \in Due(h.m[a].old) : Kept(i)}          \* older ones
       IN  Event(Ev("ret", u, Rcv, 1, n, a, h.now), Fill([h EXCEPT !.op[u] = No, !.got = IF n = 0 THEN @ \cup {a} ELSE @]),
                 IF n = 0
                 THEN Chk("a message sent and not received before", a \in M /\ a \notin h.got /\ h.m[a].st # "no" /\ a \notin h.gone)
                      \cup Chk("there to receive from", o.up = 2)
                      \cup Chk("in order", c.str # REPLACE => Cardinality(over) <= others)
                      \* with REPLACE only as many newer ones as fit push it out
                      \cup Chk("only newer ones replace", c.str = REPLACE => Cardinality({i \in over : Cardinality(Newer(i)) < K}) <= others)
                 ELSE Chk("not before its time", o.up = 2 => h.now >= o.ms + TIMEOUT - 1)
                      \cup Chk("none when some are there", o.up = 2 => Cardinality({i \in Due(o.ret) : Kept(i) /\ (c.str = REPLACE => Cardinality(Newer(i)) < K)}) <= others))
Pass == /\ Rcvs(h) # {} /\ \A u \in Rcvs(h) : h.now + 2 <= h.op[u].ms + TIMEOUT + SLACK
        /\ h' = [h EXCEPT !.now = @ + 2] /\ UNCHANGED <<c, S>>
\* a send that waits for room for good
Stuck == /\ c.str = WAIT /\ (h.k = Most \/ Free = {}) /\ Rcvs(h) = {} /\ h.up = 2 /\ Cardinality(Due(Ok)) >= K
         /\ \E u \in U : h.op[u].op = Snd
Over == h.k = Most /\ Free = U
Next == \/ Make \/ Drop \/ (\E n \in {0, -1}, a \in 0..Most : LifeRet(n, a))
        \/ (\E u \in U : Send(u) \/ Recv(u) \/ SendRet(u, 0) \/ SendRet(u, -1) \/ RecvRet(u, -1, 0) \/ \E a \in M : RecvRet(u, 0, a))
        \/ Pass \/ ((Stuck \/ Over) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
