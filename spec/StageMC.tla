-------------------------------- MODULE StageMC --------------------------------
(* Every behaviour of Stage for a few parties: each enters Rounds times.  What  *)
(* a user relies on is stated over the events alone (history h).               *)
EXTENDS Stage, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
Cfgs == {x \in [n : 0..4, known : {0, 1}, m : 1..(IF Deep THEN 5 ELSE 4), r : 1..3] : x.m * x.r <= (IF Deep THEN 8 ELSE 6)}

VARIABLES c, S, h
vars == <<c, S, h>>
T == 1..c.m
\* h: in: who is inside; came[t], left[t]: how often; old[t]: launches ended when t came; b, e: launches begun and ended
Init == /\ c \in Cfgs
        /\ S = {S0(c)}
        /\ h = [in |-> {}, came |-> [t \in 1..c.m |-> 0], left |-> [t \in 1..c.m |-> 0], old |-> [t \in 1..c.m |-> 0], b |-> 0, e |-> 0, lead |-> 0, bad |-> {}]
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
Chk(name, ok) == IF ok THEN {} ELSE {name}
Ev(v, t, a) == [v |-> v, t |-> t, a |-> a]
Event(v, k, bad) ==
    LET X == UNION {Step(c, s, v) : s \in S} IN X # {} /\ S' = X /\ h' = [k EXCEPT !.bad = @ \cup bad] /\ UNCHANGED c
Come(t) == t \notin h.in /\ h.came[t] < c.r
           /\ Event(Ev("sb", t, 0), [h EXCEPT !.in = @ \cup {t}, !.came[t] = @ + 1, !.old[t] = h.b], {})
LaunchB(t) == t \in h.in
              /\ Event(Ev("slb", t, 0), [h EXCEPT !.b = @ + 1, !.lead = t],
                       Chk("enough have come", Sum(h.came, T) >= Size(c) * (h.b + 1)) \cup Chk("one launch at a time", h.b = h.e) \cup Chk("known", c.known = 1))
LaunchE(t) == t \in h.in /\ Event(Ev("sle", t, 0), [h EXCEPT !.e = @ + 1, !.lead = 0], Chk("by whom it began", h.lead = t))
Go(t, a) == t \in h.in
            /\ Event(Ev("se", t, a), [h EXCEPT !.in = @ \ {t}, !.left[t] = @ + 1],
                     IF c.known = 0 THEN Chk("fails", a < 0)
                     ELSE Chk("succeeds", a = 0) \cup Chk("nobody else", Sum(h.left, T) + 1 <= Size(c) * h.e) \cup Chk("after its launch", h.old[t] < h.e))
\* nobody can be released any more: fewer than the threshold are inside
Over == (\A t \in T \ h.in : h.came[t] = c.r) /\ (IF c.known = 0 THEN h.in = {} ELSE Sum(h.came, T) < Size(c) * (h.b + 1) /\ h.b = h.e /\ Sum(h.left, T) = Size(c) * h.b)
Next == (\E t \in T : Come(t) \/ LaunchB(t) \/ LaunchE(t) \/ Go(t, 0) \/ Go(t, -1)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Promised == h.bad = {}
=============================================================================
