-------------------------------- MODULE PipeMC --------------------------------
(* Exhaustive exploration of Pipe for small pipelines (read from MC_DIR).       *)
(*                                                                              *)
(* The environment performs the calls of a fixed program and chooses every      *)
(* observable event the specification allows; S is the set of states Pipe may   *)
(* be in.  What a user may rely on is stated a second time, independently of    *)
(* Pipe's transition relation, over the events alone (history h); a behaviour   *)
(* that Pipe allows although it breaks one of these statements is an error, and *)
(* so is a point at which Pipe allows no event before the program is over.      *)
EXTENDS Pipe, Json, IOUtils

Dir  == IOEnv.MC_DIR
Cfgs == ndJsonDeserialize(Dir \o "/mc.ndjson")      \* [c, prog, err, maxhold]

VARIABLES ci, S, h
vars == <<ci, S, h>>

C == Cfgs[ci].c
Prog == Cfgs[ci].prog
Zero == [e \in Elems(C) |-> 0]
H0(i) == LET z == [e \in Elems(Cfgs[i].c) |-> 0]
         IN  [pc |-> 1, in |-> FALSE, start |-> z, rounds |-> z, bodies |-> z, holds |-> z, live |-> z, open |-> {}, done |-> z, codes |-> {}, fallen |-> {},
              crash |-> FALSE, errs |-> 0, bad |-> {}]

Ev(v, e, s, n, a) == [v |-> v, e |-> e, s |-> s, n |-> n, a |-> a, ms |-> 0]

(* ---------------------------------------------------- what the environment may try *)
Nodes == {e \in Elems(C) : Leaf(C, e)}
Codes(e) == {0} \cup (IF h.errs < Cfgs[ci].err THEN {-(100 + e), THROWN} ELSE {})
ElemEvents ==
    UNION {{Ev("prep", e, "", 0, 0), Ev("hold", e, "", 0, 0), Ev("chk", e, "", 0, 0)}
           \cup (IF h.holds[e] < Cfgs[ci].maxhold THEN {Ev("hold", e, "", 1, 0)} ELSE {})
           \cup (IF Leaf(C, e) THEN {Ev("rb", e, "", 0, 0)} \cup {Ev("re", e, "", n, 0) : n \in Codes(e)} ELSE {})
           \cup {Ev("asp", e, k, 0, a) : k \in {"br", "fr", "cr", "to"}, a \in 1..C.asp[e]}
           \cup {Ev("asp", e, "fr", n, a) : n \in {-(100 + e)}, a \in 1..C.asp[e]}
           \cup (IF C.k[e] = "cond" THEN {Ev("choose", e, "", n, 0) : n \in (-1)..Len(C.ch[e])} ELSE {})
           \cup (IF C.k[e] = "mutable" THEN {Ev("reshape", e, "", 0, a) : a \in DOMAIN C.resh[e]} ELSE {})
           \cup (IF Kind(C, C.par[e]) \in {"mcs", "mcp"} THEN {Ev("match", e, "", n, 0) : n \in {0, 1}} ELSE {})
           : e \in Elems(C)}
InitEvents == UNION {{Ev(v, e, "", 0, 0) : v \in {"ib", "ie", "db", "de"}} \cup {Ev("asp", e, k, 0, a) : k \in {"bi", "fi", "bd", "fd"}, a \in 1..C.asp[e]} : e \in Elems(C)}
Results == {0, -1, CRASH} \cup {-(100 + e) : e \in Elems(C)}
CallEvents == IF h.pc > Len(Prog) THEN {}
              ELSE IF ~h.in THEN {Ev("call", 0, Prog[h.pc], 0, 0)} ELSE {Ev("ret", 0, Prog[h.pc], n, 0) : n \in Results}
Cand == IF ~h.in THEN CallEvents
        ELSE CallEvents \cup (IF Prog[h.pc] = "run" THEN ElemEvents ELSE InitEvents)

(* ------------------------------------------ what is promised, over the events alone *)
\* the elements e waits for: its dependencies, those of removed elements in between included
RECURSIVE Before(_, _)
Before(e, seen) == UNION {IF d \in seen THEN {} ELSE IF C.vis[d] = 1 THEN {d} ELSE Before(d, seen \cup {d}) : d \in Ran(C.dep[e])}
\* children of a cluster are entered one after the other
Earlier(e) == IF Kind(C, C.par[e]) # "cluster" THEN {}
              ELSE {d \in Ran(Kids(C, C.par[e])) : Pos(C, d) < Pos(C, e) /\ C.vis[d] = 1}
Must(e) == IF Kind(C, C.par[e]) \in {"root", "region"} THEN Before(e, {}) ELSE Earlier(e)
RECURSIVE Hidden(_)
Hidden(e) == C.vis[e] = 0 \/ (C.par[e] > 0 /\ Hidden(C.par[e]))

RECURSIVE Plain(_)      \* only pipeline, regions and clusters around e
Plain(e) == C.par[e] = 0 \/ (C.k[C.par[e]] \in {"region", "cluster"} /\ Plain(C.par[e]))
RECURSIVE Times(_)
Times(e) == C.loop[e] * (IF C.par[e] = 0 THEN 1 ELSE Times(C.par[e]))
RECURSIVE Within(_, _)
Within(e, g) == e = g \/ (C.par[e] > 0 /\ Within(C.par[e], g))
NoHolds == \A e \in Elems(C) : h.holds[e] = 0
Chk(name, ok) == IF ok THEN {} ELSE {name}

First(v) == ~(v.e \in h.open) /\ v.v \in {"prep", "rb", "asp", "choose", "reshape"}
OnEntry(v) ==         \* an element is entered
    LET e == v.e  n == h.start[e] + 1
    IN  Chk("C01 order", \A d \in Must(e) : h.done[d] >= n)
        \cup Chk("C01 removed", ~Hidden(e))
        \cup Chk("C03 after failure", \A d \in Must(e) : d \notin h.fallen)
        \cup Chk("C04 topo", Eng(C, C.par[e]) = "topo" /\ Kind(C, C.par[e]) \in {"root", "region"} =>
                    ~\E d \in h.open : C.par[d] = C.par[e])
OnRb(v) == Chk("C02 overlap", h.live[v.e] = 0)
OnRet(v) ==
    CASE v.s = "run" ->
           Chk("C02 quiescent", \A e \in Elems(C) : h.live[e] = 0)
           \cup Chk("C03 reported", IF h.codes = {} THEN v.n = 0 ELSE v.n # 0)
           \cup Chk("C03 code", v.n # 0 /\ ~h.crash => v.n \in h.codes)
           \cup Chk("C02 loops", v.n = 0 /\ NoHolds => \A e \in Nodes : Plain(e) /\ ~Hidden(e) => h.bodies[e] = Times(e))
      [] v.s = "init" -> Chk("C04 dag", v.n = 0 => C.dag = 1)
      [] OTHER -> {}
Bad(v) == (IF v.v \in {"prep", "rb", "asp", "choose", "reshape"} /\ h.in /\ Prog[h.pc] = "run" /\ First(v) THEN OnEntry(v) ELSE {})
          \cup (IF v.v = "rb" THEN OnRb(v) ELSE {}) \cup (IF v.v = "ret" THEN OnRet(v) ELSE {})

Track(v) ==
    LET b == [h EXCEPT !.bad = @ \cup Bad(v)]
    IN  CASE v.v = "call" -> IF v.s = "run" THEN [H0(ci) EXCEPT !.pc = h.pc, !.in = TRUE, !.bad = b.bad, !.rounds = Zero] ELSE [b EXCEPT !.in = TRUE]
          [] v.v = "ret" -> [b EXCEPT !.in = FALSE, !.pc = IF v.n # 0 /\ v.s = "init" THEN Len(Prog) + 1 ELSE @ + 1]
          [] Prog[h.pc] # "run" -> b
          [] OTHER ->
             LET x == IF First(v) THEN [b EXCEPT !.start[v.e] = @ + 1, !.open = @ \cup {v.e}] ELSE b
             IN  CASE v.v = "rb" -> [x EXCEPT !.live[v.e] = @ + 1, !.bodies[v.e] = @ + 1]
                   [] v.v = "re" -> IF v.n = 0 THEN [x EXCEPT !.live[v.e] = @ - 1]
                                    ELSE [x EXCEPT !.live[v.e] = @ - 1, !.codes = @ \cup {v.n}, !.errs = @ + 1, !.fallen = @ \cup {v.e},
                                                   !.crash = @ \/ v.n = THROWN]
                   [] v.v = "hold" -> IF v.n = 1 THEN [x EXCEPT !.holds[v.e] = @ + 1] ELSE x
                   [] v.v = "chk" -> [x EXCEPT !.open = @ \ {v.e}, !.done[v.e] = IF v.e \in x.fallen THEN @ ELSE @ + 1]
                   [] OTHER -> x

Init == /\ ci \in DOMAIN Cfgs
        /\ S = {S0(Cfgs[ci].c)}
        /\ h = H0(ci)
Event(v) == LET T == UNION {Step(C, s, v) : s \in S}
            IN  /\ T # {}
                /\ S' = T
                /\ h' = Track(v)
                /\ UNCHANGED ci
Over == h.pc > Len(Prog) /\ ~h.in
Next == (\E v \in Cand : Event(v)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Promised == h.bad = {}
=============================================================================
