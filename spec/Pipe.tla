--------------------------------- MODULE Pipe ---------------------------------
(* What a user of a CGraph pipeline may observe.                                *)
(*                                                                              *)
(* The specification is one transition relation, Step(c, s, v): the set of      *)
(* states a pipeline with configuration c may be in after state s, once the     *)
(* observable event v has happened.  It is used three ways:                     *)
(*   PipeMC     explores it exhaustively for small configurations (the          *)
(*              environment chooses every event) and checks the properties as   *)
(*              invariants of the reachable states;                             *)
(*   PipeTrace  decides whether an execution recorded from the real code is a   *)
(*              behaviour of it (a set of candidate states is carried along);   *)
(*   PipeGen    lets TLC produce behaviours that are replayed on the real code. *)
(*                                                                              *)
(* Events are the user-visible hooks: begin and end of the node functions       *)
(* (ib/ie init, rb/re run, db/de destroy), prepareRun, isHold, checkRunResult,  *)
(* isMatch, choose, reshape, the aspect hooks, and call/return of the pipeline  *)
(* operations.  Scheduling decisions are internal; groups become active         *)
(* silently, at the latest when the first of their children shows an event.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(q) == {q[i] : i \in DOMAIN q}
SeqMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SeqMin(S) == CHOOSE x \in S : \A y \in S : x <= y

CRASH  == -996
THROWN == -99

(* ------------------------------------------------------------ configuration *)
(* c.n elements 1..n; c.k kind; c.par parent (0: the pipeline); c.ch children   *)
(* in order (c.top: of the pipeline); c.dep dependencies; c.loop; c.vis; c.asp  *)
(* number of aspects; c.to timeout in ms (0: none); c.tos its strategy          *)
(* (0 error, 1 hold, 2 no hold); c.lvl; c.some; c.waits; c.resh reshape         *)
(* scripts; c.eng engine of each scope; c.dag                                   *)
Elems(c)   == 1..c.n
Kids(c, g) == IF g = 0 THEN c.top ELSE c.ch[g]
Kind(c, g) == IF g = 0 THEN "root" ELSE c.k[g]
Leaf(c, e) == c.k[e] \in {"node", "func"}
Graph(k)   == k \in {"root", "region", "mutable"}
Pos(c, e)  == CHOOSE i \in DOMAIN Kids(c, c.par[e]) : Kids(c, c.par[e])[i] = e
Eng(c, g)  == c.eng[g + 1]

X0 == [ph |-> "new", it |-> 0, a |-> 0, st |-> 0, prep |-> FALSE,
       sel |-> -1, ms |-> <<>>, out |-> 0, pend |-> 0, rs |-> 0, tmo |-> FALSE, at |-> -1, beg |-> FALSE, det |-> FALSE, see |-> FALSE]

S0(c) == [life |-> "fresh", ph |-> "none", call |-> <<>>, left |-> 0, skip |-> FALSE,
          shut |-> FALSE, stop |-> FALSE, grace |-> {}, moved |-> FALSE, res |-> 0, bro |-> FALSE, now |-> 0, calm |-> TRUE, el |-> [e \in Elems(c) |-> X0]]

(* ---------------------------------------------------------------- structure *)
Script(c, s, g) == c.resh[g][s.el[g].sel]
InScript(c, s, g, e) ==
    LET r == Script(c, s, g)  i == Pos(c, e) - 1
    IN  (\E x \in DOMAIN r.edges : r.edges[x][1] = i \/ r.edges[x][2] = i) \/ (\E x \in DOMAIN r.solo : r.solo[x] = i)

Deps(c, s, e) ==
    LET p == c.par[e]
    IN  IF Kind(c, p) = "mutable"
        THEN IF s.el[p].sel < 1 THEN {}
             ELSE LET r == Script(c, s, p) IN {Kids(c, p)[r.edges[x][1] + 1] : x \in {y \in DOMAIN r.edges : r.edges[y][2] = Pos(c, e) - 1}}
        ELSE Ran(c.dep[e])

\* reshape() decides the loop count of a mutable's children anew each time (once, unless it says otherwise)
Loop(c, s, e) ==
    LET p == c.par[e]
    IN  IF Kind(c, p) # "mutable" THEN c.loop[e]
        ELSE IF s.el[p].sel < 1 THEN 1
        ELSE LET r == Script(c, s, p)
                 X == {x \in DOMAIN r.loops : r.loops[x][1] = Pos(c, e) - 1}
             IN  IF X = {} THEN 1 ELSE r.loops[SeqMax(X)][2]

Vis(c, s, e) ==
    IF Kind(c, c.par[e]) = "mutable" /\ s.ph \in {"run", "none"}
    THEN s.el[c.par[e]].sel >= 1 /\ InScript(c, s, c.par[e], e)
    ELSE c.vis[e] = 1

RECURSIVE DoneT(_, _, _)
(* an element counts as done when it has completed; a removed (invisible) element passes completion through *)
DoneT(c, s, e) == IF Vis(c, s, e) THEN s.el[e].ph = "done"
                  ELSE \A d \in Deps(c, s, e) : DoneT(c, s, d)

Quiet(ph)  == ph \in {"idle", "done", "failed"}
Busy(c, s, e) == ~Quiet(s.el[e].ph)
AllDone(c, s, g)  == \A i \in DOMAIN Kids(c, g) : DoneT(c, s, Kids(c, g)[i])
Fails(c, s, g)    == {s.el[e].st : e \in {x \in Ran(Kids(c, g)) : s.el[x].ph = "failed"}}
KidBusy(c, s, g)  == \E e \in Ran(Kids(c, g)) : Busy(c, s, e)

Put(s, e, x) == [s EXCEPT !.el[e] = x]
KidsReset(c, s, g) ==
    [s EXCEPT !.el = [e \in Elems(c) |->
        IF c.par[e] = g THEN [s.el[e] EXCEPT !.ph = "idle", !.it = 0, !.a = 0, !.st = 0, !.sel = -1, !.ms = <<>>]
        ELSE IF e = g THEN [s.el[e] EXCEPT !.beg = TRUE] ELSE s.el[e]]]

(* ----------------------------------------------------------- element: begin *)
Ready(c, s, e) ==
    LET p == c.par[e]  k == Kind(c, p)  i == Pos(c, e)  q == Kids(c, p)
    IN  CASE Graph(k) ->
               /\ k = "mutable" => s.el[p].sel >= 1
               /\ \A d \in Deps(c, s, e) : DoneT(c, s, d)
               /\ Eng(c, p) = "topo" => ~KidBusy(c, s, p) /\ Fails(c, s, p) = {}
          [] k = "cluster" -> \A j \in 1..(i - 1) : DoneT(c, s, q[j])
          [] k = "cond"    -> s.el[p].sel = i
          [] k = "mcs"     -> Len(s.el[p].ms) = i /\ s.el[p].ms[i] = 1
          [] k = "mcp"     -> Len(s.el[p].ms) >= i /\ s.el[p].ms[i] = 1
          [] k = "some"    -> TRUE
          [] OTHER -> FALSE

(* a GSome starts all its children; those it did not wait for go on by themselves, and are waited for before the next round *)
SomeRest(c, s, g) ==
    /\ ~KidBusy(c, s, g)
    /\ s.el[g].beg /\ ~s.skip /\ c.some[g] <= Len(Kids(c, g)) => \A i \in DOMAIN Kids(c, g) : s.el[Kids(c, g)[i]].ph # "idle" \/ ~Vis(c, s, Kids(c, g)[i])

(* after cancel() or suspend() has returned, no iteration begins, except those the schedule had already let through *)
GateOk(s, e) == ~s.shut \/ e \in s.grace

Begin(c, s, e) ==          \* the iteration e is about to run
    LET x == s.el[e]
    IN  IF x.ph = "head" /\ x.it < Loop(c, s, e) /\ x.st = 0 /\ GateOk(s, e) /\ (c.k[e] = "some" /\ c.asp[e] = 0 => SomeRest(c, s, e))
        THEN LET t == [s EXCEPT !.grace = @ \ {e}]
             IN  {IF c.asp[e] > 0 THEN Put(t, e, [x EXCEPT !.ph = "basp", !.a = 0])
                  ELSE KidsReset(c, Put(t, e, [x EXCEPT !.ph = "go", !.sel = -1, !.ms = <<>>]), e)}
        ELSE {}

Enter(c, s, e) == KidsReset(c, Put(s, e, [s.el[e] EXCEPT !.ph = "go", !.sel = -1, !.ms = <<>>]), e)
\* a GSome whose aspects have begun a round waits for what is left of the last one
Waited(c, s, e) == IF s.el[e].ph = "wait" /\ SomeRest(c, s, e) THEN {Enter(c, s, e)} ELSE {}

RECURSIVE Act(_, _, _)
RECURSIVE Start(_, _, _)
(* states in which scope g is executing its body *)
Act(c, s, g) ==
    IF g = 0 THEN (IF s.ph = "run" THEN {s} ELSE {})
    ELSE LET x == s.el[g]
             again ==
             CASE x.ph = "go" -> {s}
               [] x.ph = "wait" -> Waited(c, s, g)
               [] Quiet(x.ph) /\ x.prep /\ c.asp[g] = 0 -> UNION {Begin(c, Put(t, g, [t.el[g] EXCEPT !.ph = "head"]), g) : t \in Start(c, s, g)}
               [] x.ph = "head" /\ c.asp[g] = 0 -> Begin(c, s, g)
               [] OTHER -> {}
         IN  again \cup (IF (c.k[g] = "some" /\ x.beg) \/ x.det THEN {s} ELSE {})
(* states in which e, idle so far, may be entered *)
Start(c, s, e) ==
    {t \in Act(c, s, c.par[e]) : t.el[e].ph = "idle" /\ Vis(c, t, e) /\ Ready(c, t, e)}

AtHead(c, s, e) ==
    IF s.el[e].ph = "head" THEN {s}
    ELSE {Put(t, e, [t.el[e] EXCEPT !.ph = "head"]) : t \in {u \in Start(c, s, e) : u.el[e].prep}}

Go(c, s, e) ==             \* e is in its body, nothing of the body has been seen yet
    IF s.el[e].ph = "go" THEN {s}
    ELSE IF s.el[e].ph = "wait" THEN Waited(c, s, e)
    ELSE IF c.asp[e] > 0 THEN {}
    ELSE UNION {Begin(c, t, e) : t \in AtHead(c, s, e)}

\* the body of group g is being executed, possibly beyond its timeout
Inside(c, s, g) == Go(c, s, g) \cup (IF s.el[g].det THEN {s} ELSE {})

(* ------------------------------------------------------------- element: end *)
Fail(s, e, code) == Put(s, e, [s.el[e] EXCEPT !.ph = "failed", !.st = code])
Throw(c, s, e)   == IF c.asp[e] = 0 THEN Fail(s, e, CRASH) ELSE Put(s, e, [s.el[e] EXCEPT !.ph = "crash", !.a = 0])
Code(c, s, e, n, ok) == IF n = THROWN THEN Throw(c, s, e) ELSE IF n < 0 THEN Fail(s, e, n) ELSE ok

RECURSIVE BodyRes(_, _, _)
(* the body of timed element e outlived its timeout and still runs; what it returned in the end *)
Straggles(c, s, e) == IF Leaf(c, e) THEN s.el[e].out + s.el[e].pend > 0 ELSE s.el[e].det /\ (BodyRes(c, s, e) = {})
StragRes(c, s, e)  == IF Leaf(c, e) THEN {s.el[e].rs} ELSE IF s.el[e].det THEN BodyRes(c, s, e) ELSE {0}

(* codes with which the body of a group (or of a waiting adapter) may end now *)
BodyRes(c, s, g) ==
    LET k == c.k[g]  q == Kids(c, g)  x == s.el[g]  F == Fails(c, s, g)
    IN  CASE k = "coord" -> IF c.size[g] > 0 THEN {0} ELSE {0, -1}      \* only threads that exist can be released
          [] k = "fence" -> IF \E e \in Ran(c.waits[g]) : Straggles(c, s, e) THEN {}
                            ELSE LET R == UNION {StragRes(c, s, e) : e \in Ran(c.waits[g])} \ {0} IN IF R = {} THEN {0} ELSE R
          [] k = "some" ->
               IF c.some[g] > Len(q) THEN {-1}
               ELSE F \cup (IF Cardinality({e \in Ran(q) : s.el[e].ph = "done"}) >= c.some[g] THEN {0} ELSE {})
          [] OTHER ->
               IF k = "mutable" /\ x.sel < 0 THEN {}
               ELSE IF k = "mutable" /\ x.sel = 0 THEN {x.rs}
               ELSE IF KidBusy(c, s, g) THEN {}
               ELSE IF F # {} THEN F
               ELSE CASE k \in {"region", "mutable", "cluster"} -> IF AllDone(c, s, g) THEN {0} ELSE {}
                      [] k = "cond" -> IF x.sel = 0 \/ (x.sel > 0 /\ DoneT(c, s, q[x.sel])) THEN {0} ELSE {}
                      [] k \in {"mcs", "mcp"} ->
                           IF Len(x.ms) = Len(q) /\ \A i \in DOMAIN q : x.ms[i] = 1 => DoneT(c, s, q[i]) THEN {0} ELSE {}
                      [] OTHER -> {}

TimedOut(c, s, e) ==
    LET x == s.el[e] IN
    [x EXCEPT !.ph = "post", !.st = IF c.tos[e] = 0 THEN -1 ELSE 0, !.tmo = c.tos[e] # 0,
              !.pend = IF x.ph = "go" /\ Leaf(c, e) THEN @ + 1 ELSE @, !.det = ~Leaf(c, e)]
TimeUp(c, s, e, ms) == c.to[e] > 0 /\ (s.el[e].at >= 0 => ms >= s.el[e].at + c.to[e] - 1)

(* the body is over, isHold is next *)
Post(c, s, e, ms) ==
    CASE s.el[e].ph = "post" -> {s}
      [] s.el[e].ph = "tasp" /\ s.el[e].a = c.asp[e] -> {Put(s, e, [s.el[e] EXCEPT !.ph = "post"])}
      [] OTHER ->
         IF Leaf(c, e)
         THEN IF c.to[e] = 0 \/ c.asp[e] > 0 THEN {}
              ELSE {Put(t, e, TimedOut(c, t, e)) : t \in {u \in (IF s.el[e].ph = "body" THEN {s} ELSE Go(c, s, e)) : TimeUp(c, u, e, ms)}}
         ELSE UNION {{Put(t, e, [t.el[e] EXCEPT !.ph = "post", !.st = r]) : r \in BodyRes(c, t, e)} : t \in Go(c, s, e)}

(* isHold may be left out once the status is an error; GSome has no isHold of its own *)
NoHold(c, s, e) == s.el[e].st # 0 \/ c.k[e] = "some"
Fin(c, s, e, ms) ==
    IF s.el[e].ph = "fin" THEN {s}
    ELSE {Put(t, e, [t.el[e] EXCEPT !.ph = "fin", !.a = 0]) : t \in {u \in Post(c, s, e, ms) : u.el[e].ph = "post" /\ NoHold(c, u, e)}}
Next1(c, s, e) ==          \* all finishRun hooks called: next loop head
    IF s.el[e].ph = "fin" /\ s.el[e].a = c.asp[e] THEN Put(s, e, [s.el[e] EXCEPT !.ph = "head", !.it = @ + 1]) ELSE s
(* states at a loop head *)
AtTail(c, s, e, ms) ==
    AtHead(c, s, e) \cup {Next1(c, t, e) : t \in {u \in Fin(c, s, e, ms) : u.el[e].a = c.asp[e]}}

RECURSIVE UnderTimeout(_, _, _)
UnderTimeout(c, s, e) ==
    \/ s.el[e].tmo
    \/ c.par[e] > 0 /\ (UnderTimeout(c, s, c.par[e]) \/ (c.k[c.par[e]] = "some" /\ (s.el[c.par[e]].ph # "go" \/ BodyRes(c, s, c.par[e]) # {})))

RECURSIVE CrashUp(_, _, _)
(* a group one of whose children crashed may crash in turn, without isHold / finishRun / checkRunResult *)
CrashUp(c, s, e) ==
    LET g == c.par[e]
    IN  IF g > 0 /\ c.asp[g] = 0 /\ s.el[g].ph = "go" /\ CRASH \in BodyRes(c, s, g)
        THEN {s} \cup CrashUp(c, Fail(s, g, CRASH), g) ELSE {s}

(* -------------------------------------------------------------- run events *)
EvPrep(c, s, v) ==
    {Code(c, t, v.e, v.n, Put(t, v.e, [t.el[v.e] EXCEPT !.ph = "head", !.prep = TRUE, !.at = v.ms]))
        : t \in {u \in Start(c, s, v.e) : ~u.el[v.e].prep}}

EvRb(c, s, v) ==
    LET e == v.e
    IN  IF ~Leaf(c, e) THEN {}
        ELSE {Put(t, e, [t.el[e] EXCEPT !.ph = "body", !.out = IF c.to[e] > 0 THEN @ + 1 ELSE @,
                                          !.at = IF t.el[e].at >= 0 THEN @ ELSE v.ms]) : t \in Go(c, s, e)}
             \cup (IF s.el[e].pend > 0 THEN {Put(s, e, [s.el[e] EXCEPT !.pend = @ - 1, !.out = @ + 1])} ELSE {})

EvRe(c, s, v) ==
    LET e == v.e  x == s.el[e]
        own == IF x.ph # "body" THEN {}
               ELSE IF c.to[e] > 0 /\ v.ms > x.at + c.to[e] + 2 THEN {}         \* the timeout should have fired
               ELSE LET y == [x EXCEPT !.out = IF c.to[e] > 0 THEN @ - 1 ELSE @]
                    IN  {IF v.n = THROWN THEN Throw(c, Put(s, e, y), e) ELSE Put(s, e, [y EXCEPT !.ph = "post", !.st = IF v.n < 0 THEN v.n ELSE 0])}
        old == IF c.to[e] > 0 /\ x.out > (IF x.ph = "body" THEN 1 ELSE 0)
               THEN {Put(s, e, [x EXCEPT !.out = @ - 1, !.rs = IF v.n = THROWN THEN CRASH ELSE IF v.n < 0 THEN v.n ELSE 0])} ELSE {}
        \* over in the very instant in which the timeout fires
        late == IF x.ph = "body" /\ TimeUp(c, s, e, v.ms)
                THEN {Put(s, e, [TimedOut(c, s, e) EXCEPT !.out = @ - 1, !.ph = IF c.asp[e] > 0 THEN "tasp" ELSE "post", !.a = 0,
                                                          !.rs = IF v.n = THROWN THEN CRASH ELSE IF v.n < 0 THEN v.n ELSE 0])} ELSE {}
    IN  own \cup old \cup late

EvHold(c, s, v) ==
    LET e == v.e
    IN  {LET x == t.el[e] IN
         IF v.n = 1 /\ x.st = 0 THEN KidsReset(c, Put(t, e, [x EXCEPT !.ph = "go", !.sel = -1, !.ms = <<>>, !.at = v.ms]), e)
         ELSE Next1(c, Put(t, e, [x EXCEPT !.ph = "fin", !.a = 0]), e)
         : t \in {u \in Post(c, s, e, v.ms) : u.el[e].ph = "post"}}

EvChk(c, s, v) ==
    LET e == v.e
    IN  {LET x == t.el[e] IN
         IF v.n # 0 THEN Throw(c, t, e) ELSE IF x.st = 0 THEN Put(t, e, [x EXCEPT !.ph = "done"]) ELSE Fail(t, e, x.st)
         : t \in {u \in AtTail(c, s, e, v.ms) :
                    u.el[e].st # 0 \/ u.el[e].it >= Loop(c, u, e) \/ s.skip \/ UnderTimeout(c, u, e)}}

EvChoose(c, s, v) ==
    {LET q == Kids(c, v.e)
         i == IF v.n = -1 /\ Len(q) > 0 THEN Len(q) ELSE IF v.n >= 0 /\ v.n < Len(q) THEN v.n + 1 ELSE 0
     IN  Put(t, v.e, [t.el[v.e] EXCEPT !.sel = i])
     : t \in {u \in Inside(c, s, v.e) : c.k[v.e] = "cond" /\ u.el[v.e].sel = -1}}

EvMatch(c, s, v) ==
    LET p == c.par[v.e]
    IN  IF p = 0 \/ Kind(c, p) \notin {"mcs", "mcp"} THEN {}
        ELSE {Put(t, p, [t.el[p] EXCEPT !.ms = Append(@, v.n)])
              : t \in {u \in Inside(c, s, p) :
                       LET m == u.el[p].ms IN
                       /\ Len(m) = Pos(c, v.e) - 1
                       /\ c.k[p] = "mcs" => \A i \in DOMAIN m : m[i] = 1 => DoneT(c, u, Kids(c, p)[i])}}

EvReshape(c, s, v) ==
    {IF v.n = THROWN /\ ~t.el[v.e].det THEN Throw(c, t, v.e) ELSE Put(t, v.e, [t.el[v.e] EXCEPT !.sel = IF v.n < 0 THEN 0 ELSE v.a, !.rs = v.n])
     : t \in {u \in Inside(c, s, v.e) : c.k[v.e] = "mutable" /\ u.el[v.e].sel = -1}}

(* ------------------------------------------------------------ aspects in run *)
EvAspRun(c, s, v) ==
    LET e == v.e
    IN  IF v.a < 1 \/ v.a > c.asp[e] THEN {}
        ELSE CASE v.s = "br" ->
               LET from == IF s.el[e].ph = "basp" THEN {s} ELSE UNION {Begin(c, t, e) : t \in AtHead(c, s, e)}
               IN  {Code(c, t, e, v.n,
                         LET x == [t.el[e] EXCEPT !.a = v.a, !.at = v.ms]
                         IN  IF v.a < c.asp[e] THEN Put(t, e, x)
                             ELSE IF c.k[e] = "some" /\ ~SomeRest(c, t, e) THEN Put(t, e, [x EXCEPT !.ph = "wait"])
                             ELSE Enter(c, Put(t, e, x), e))
                    : t \in {u \in from : u.el[e].ph = "basp" /\ u.el[e].a = v.a - 1}}
          [] v.s = "fr" ->
               {Next1(c, Put(t, e, [t.el[e] EXCEPT !.a = v.a]), e)
                : t \in {u \in Fin(c, s, e, v.ms) : u.el[e].a = v.a - 1 /\ v.n = u.el[e].st}}
          [] v.s = "to" ->
               LET from == IF s.el[e].ph = "tasp" THEN {s}
                           ELSE {Put(t, e, [TimedOut(c, t, e) EXCEPT !.ph = "tasp", !.a = 0])
                                 : t \in {u \in (IF s.el[e].ph = "body" THEN {s} ELSE Go(c, s, e)) : TimeUp(c, u, e, v.ms)}}
               IN  {Put(t, e, [t.el[e] EXCEPT !.a = v.a]) : t \in {u \in from : u.el[e].a = v.a - 1}}
          [] v.s = "cr" ->
               \* a group whose child crashed takes the crash path as well
               LET from == IF s.el[e].ph = "crash" THEN {s}
                           ELSE IF Leaf(c, e) THEN {}
                           ELSE {Put(t, e, [t.el[e] EXCEPT !.ph = "crash", !.a = 0])
                                 : t \in {u \in Go(c, s, e) : CRASH \in BodyRes(c, u, e)}}
               IN  {LET x == [t.el[e] EXCEPT !.a = v.a] IN IF v.a = c.asp[e] THEN Fail(Put(t, e, x), e, CRASH) ELSE Put(t, e, x)
                    : t \in {u \in from : u.el[e].a = v.a - 1}}
          [] OTHER -> {}

(* ------------------------------------------------------- init and destroy *)
(* per element: "new" -> ("iasp") -> ("ibody") -> ("ifin") -> "ok" | "bad"       *)
Reach(c, s, e) == Vis(c, s, e) /\ (c.par[e] = 0 \/ TRUE)
RECURSIVE Shown(_, _, _)
Shown(c, s, e) == c.vis[e] = 1 /\ (c.par[e] = 0 \/ Shown(c, s, c.par[e]))
(* elements whose init / destroy leaves a trace *)
Logs(c, s, e) == Shown(c, s, e) /\ (Leaf(c, e) \/ c.asp[e] > 0)

IOrder(c, s, e) ==   \* lower levels are initialised before higher ones
    \A d \in Elems(c) : (c.par[d] = c.par[e] /\ Graph(Kind(c, c.par[e])) /\ Kind(c, c.par[e]) # "mutable" /\ c.lvl[d] < c.lvl[e] /\ Logs(c, s, d))
                        => s.el[d].ph = "ok"
IParent(c, s, e) == c.par[e] = 0 \/ c.asp[c.par[e]] = 0 \/ s.el[c.par[e]].ph = "ibody"

IFail(s, e, n) == Put(s, e, [s.el[e] EXCEPT !.ph = "bad", !.st = n])
IThrow(c, s, e) == IF c.asp[e] = 0 THEN IFail(s, e, CRASH) ELSE Put(s, e, [s.el[e] EXCEPT !.ph = "crash", !.a = 0])
IEnd(c, s, e, st) ==
    IF c.asp[e] > 0 THEN Put(s, e, [s.el[e] EXCEPT !.ph = "ifin", !.a = 0, !.st = st])
    ELSE Put(s, e, [s.el[e] EXCEPT !.ph = IF st < 0 THEN "bad" ELSE "ok", !.st = st])

EvIB(c, s, v) ==
    LET e == v.e  x == s.el[e]
    IN  IF Leaf(c, e) /\ Shown(c, s, e) /\ ((x.ph = "new" /\ c.asp[e] = 0 /\ IParent(c, s, e) /\ IOrder(c, s, e)) \/ (x.ph = "ibody" /\ x.a = 0))
        THEN {Put(s, e, [x EXCEPT !.ph = "ibody", !.a = 1])} ELSE {}
EvIE(c, s, v) ==
    LET e == v.e  x == s.el[e]
    IN  IF x.ph = "ibody" /\ x.a = 1
        THEN {IF v.n = THROWN THEN IThrow(c, s, e) ELSE IEnd(c, s, e, v.n)} ELSE {}

KidsInitDone(c, s, e) == \A d \in Elems(c) : c.par[d] = e => (~Logs(c, s, d) \/ s.el[d].ph \in {"ok", "bad"} \/ \E f \in Elems(c) : s.el[f].ph = "bad")
EvAspInit(c, s, v, b, f) ==
    LET e == v.e  x == s.el[e]
    IN  IF v.a < 1 \/ v.a > c.asp[e] \/ ~Shown(c, s, e) THEN {}
        ELSE CASE v.s = b ->
               IF (x.ph = "new" /\ v.a = 1 /\ IParent(c, s, e) /\ IOrder(c, s, e)) \/ (x.ph = "iasp" /\ x.a = v.a - 1)
               THEN {IF v.n = THROWN THEN IThrow(c, s, e) ELSE IF v.n < 0 THEN IFail(s, e, v.n)
                     ELSE IF v.a = c.asp[e] THEN Put(s, e, [x EXCEPT !.ph = "ibody", !.a = 0]) ELSE Put(s, e, [x EXCEPT !.ph = "iasp", !.a = v.a])}
               ELSE {}
          [] v.s = f ->
               IF (x.ph = "ifin" /\ x.a = v.a - 1 /\ v.n = x.st) \/ (~Leaf(c, e) /\ x.ph = "ibody" /\ v.a = 1 /\ KidsInitDone(c, s, e))
               THEN LET y == [x EXCEPT !.ph = "ifin", !.a = v.a, !.st = v.n]
                    IN  {IF v.a = c.asp[e] THEN Put(s, e, [y EXCEPT !.ph = IF v.n < 0 THEN "bad" ELSE "ok"]) ELSE Put(s, e, y)}
               ELSE {}
          [] v.s = "cr" ->
               IF (x.ph = "crash" /\ x.a = v.a - 1) \/ (~Leaf(c, e) /\ x.ph = "ibody" /\ v.a = 1 /\ \E d \in Elems(c) : s.el[d].ph = "bad")
               THEN {IF v.a = c.asp[e] THEN IFail(s, e, CRASH) ELSE Put(s, e, [x EXCEPT !.ph = "crash", !.a = v.a])} ELSE {}
          [] OTHER -> {}

(* --------------------------------------------------- pipeline operations *)
Ctl(op) == op \in {"cancel", "suspend", "resume"}
\* cl: the call falls into one run completely, and no other such call overlaps it
Unclear(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.cl = FALSE]]
Fresh(c, s) == [s EXCEPT !.el = [e \in Elems(c) |-> [s.el[e] EXCEPT !.ph = "new", !.a = 0, !.st = 0]]]
ToInit(c, s) == [s EXCEPT !.ph = "init", !.el = [e \in Elems(c) |-> [X0 EXCEPT !.out = s.el[e].out, !.pend = s.el[e].pend]]]
ToRun(c, s) ==
    [s EXCEPT !.ph = "run", !.moved = FALSE, !.call = Unclear(@), !.shut = FALSE, !.stop = FALSE, !.grace = {}, !.skip = \E i \in DOMAIN s.call : s.call[i].op = "cancel",
              !.el = [e \in Elems(c) |-> [s.el[e] EXCEPT !.ph = "idle", !.it = 0, !.a = 0, !.st = 0, !.sel = -1, !.ms = <<>>, !.rs = 0, !.tmo = FALSE, !.at = -1, !.beg = FALSE, !.det = FALSE]]]
ToDestroy(c, s) == [Fresh(c, s) EXCEPT !.ph = "destroy"]

BadCodes(c, s) == {s.el[e].st : e \in {x \in Elems(c) : s.el[x].ph = "bad"}}
IdOk(c, s) == \A e \in Elems(c) : Logs(c, s, e) => s.el[e].ph = "ok"
(* codes with which init may return now; a pipeline whose init failed may refuse another init *)
InitRes(c, s) ==
    IF s.bro /\ \A e \in Elems(c) : s.el[e].ph = "new" THEN {-1, CRASH} \cup (IF c.dag = 1 /\ c.badcfg = 0 /\ IdOk(c, s) THEN {0} ELSE {})
    ELSE IF \E e \in Elems(c) : s.el[e].ph \in {"iasp", "ibody", "ifin", "crash"} /\ (Leaf(c, e) \/ BadCodes(c, s) = {}) THEN {}
    ELSE (IF BadCodes(c, s) # {} THEN BadCodes(c, s)
          ELSE IF c.dag = 0 \/ c.badcfg = 1 THEN {-1, CRASH}
          ELSE IF IdOk(c, s) THEN {0} ELSE {})
DestroyRes(c, s) ==
    IF \E e \in Elems(c) : s.el[e].ph \in {"iasp", "ibody", "ifin", "crash"} /\ (Leaf(c, e) \/ BadCodes(c, s) = {}) THEN {}
    ELSE IF BadCodes(c, s) # {} THEN BadCodes(c, s)
    ELSE IF IdOk(c, s) THEN {0} ELSE {}

SomeKid(c, e) == c.par[e] > 0 /\ c.k[c.par[e]] = "some"
RECURSIVE InSome(_, _)
InSome(c, e) == SomeKid(c, e) \/ (c.par[e] > 0 /\ InSome(c, c.par[e]))
Held(c, e) == c.to[e] > 0 /\ c.tos[e] = 1
(* e belongs to a group whose timeout let the run go on without it *)
RECURSIVE Loose(_, _, _)
Loose(c, s, e) == c.par[e] > 0 /\ ((s.el[c.par[e]].det /\ ~Held(c, c.par[e])) \/ Loose(c, s, c.par[e]))
RunQuiet(c, s) ==
    /\ \A g \in Elems(c) : c.k[g] = "some" /\ ~Loose(c, s, g) => SomeRest(c, s, g)
    /\ \A e \in Elems(c) : ~Busy(c, s, e) \/ Loose(c, s, e)
    /\ \A e \in Elems(c) : Held(c, e) /\ ~Loose(c, s, e) => ~Straggles(c, s, e)
StragCodes(c, s) == (UNION {StragRes(c, s, e) : e \in {x \in Elems(c) : Held(c, x) /\ ~Loose(c, s, x)}} \cup {s.el[e].st : e \in {x \in Elems(c) : SomeKid(c, x) /\ s.el[x].ph = "failed"}}) \ {0}
\* those in a group that was left behind may be waited for, or not
LooseCodes(c, s) == (UNION {StragRes(c, s, e) \cup {s.el[e].st} \cup (IF ~Leaf(c, e) /\ s.el[e].ph = "go" THEN BodyRes(c, s, e) ELSE {})
                            : e \in {x \in Elems(c) : Held(c, x) /\ Loose(c, s, x)}}) \ {0}
RunRes(c, s) ==
    IF ~RunQuiet(c, s) THEN {}
    ELSE IF Fails(c, s, 0) # {} THEN Fails(c, s, 0)
    ELSE IF ~AllDone(c, s, 0) THEN {}
    ELSE (IF StragCodes(c, s) # {} THEN StragCodes(c, s) ELSE {0}) \cup LooseCodes(c, s)

(* process(): the next run begins as soon as the last one is complete, unless it has been cancelled *)
Turn(c, s) ==
    IF s.ph = "run" /\ s.left > 1 /\ s.moved /\ ~s.stop /\ RunRes(c, s) = {0}
       /\ \E i \in DOMAIN s.call : s.call[i].op = "process"
    THEN [ToRun(c, s) EXCEPT !.left = @ - 1, !.skip = s.skip]
    ELSE s

\* the threads of the pipeline are gone: nothing that was left behind is executed any more
Gone(c, s) == [s EXCEPT !.el = [e \in Elems(c) |-> [s.el[e] EXCEPT !.out = 0, !.pend = 0, !.det = FALSE]]]
\* certainly initialised / certainly not
Up(s)   == s.life = "ready" /\ s.ph \in {"none", "run"}
Down(s) == s.life = "fresh" /\ s.ph = "none" /\ ~\E i \in DOMAIN s.call : s.call[i].op = "process"
AddCall(s, v, op, ok) == [s EXCEPT !.call = Append(@, [th |-> v.e, op |-> op, ok |-> ok, cl |-> FALSE])]
AddCtl(s, v, op) ==
    LET other == \E i \in DOMAIN s.call : Ctl(s.call[i].op)
    IN  [s EXCEPT !.stop = FALSE, !.call = Append(Unclear(@), [th |-> v.e, op |-> op, ok |-> Up(s), cl |-> s.ph = "run" /\ s.moved /\ ~other])]
CallIdx(s, th) == {i \in DOMAIN s.call : s.call[i].th = th}
DropCall(s, i) == [s EXCEPT !.call = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]

EvCall(c, s, v) ==
    CASE v.s \in {"init"} ->
           IF s.life = "fresh" /\ s.ph = "none" THEN {AddCall(ToInit(c, s), v, "init", TRUE)} ELSE {AddCall(s, v, "init", FALSE)}
      [] v.s \in {"run", "arun"} ->
           IF s.life = "ready" /\ s.ph = "none" THEN {AddCall(ToRun(c, s), v, v.s, TRUE)} ELSE {AddCall(s, v, v.s, FALSE)}
      [] v.s = "destroy" ->
           IF s.life = "ready" /\ s.ph = "none" THEN {AddCall(ToDestroy(c, s), v, "destroy", TRUE)} ELSE {AddCall(s, v, "destroy", FALSE)}
      [] v.s \in {"process", "aproc", "perf"} ->
           IF s.life = "fresh" /\ s.ph = "none"
           THEN {[AddCall(ToInit(c, s), v, "process", TRUE) EXCEPT !.left = IF v.s = "perf" THEN 1 ELSE v.n, !.res = 0]}
           ELSE {AddCall(s, v, v.s, FALSE)}
      [] v.s \in {"cancel", "suspend", "resume"} ->
           LET t == AddCtl(s, v, v.s)
           IN  {IF v.s = "cancel" THEN [t EXCEPT !.skip = TRUE]
                ELSE IF v.s = "resume" THEN [t EXCEPT !.shut = FALSE, !.grace = {}] ELSE t}
      [] OTHER -> {AddCall(s, v, v.s, TRUE)}

(* what may already be on its way when cancel() / suspend() returns *)
Grace(c, s) == {e \in Elems(c) : s.el[e].ph = "head" \/ Start(c, s, e) # {} \/ AtHead(c, s, e) # {}
                                 \/ (~Leaf(c, e) /\ s.el[e].ph = "go")}

EvRet(c, s, w) ==
    LET v == IF w.n = THROWN THEN [w EXCEPT !.n = CRASH] ELSE w      \* a crash may be reported by an exception
        I == CallIdx(s, v.e)
        i == IF I = {} THEN 0 ELSE CHOOSE j \in I : \A k \in I : k <= j
        m == s.call[i]
        t == DropCall(s, i)
        neg == v.n < 0
    IN  IF I = {} THEN {}
        ELSE IF ~m.ok /\ v.s \in {"init", "run", "destroy", "process", "arun", "aproc", "perf"}
        THEN IF neg THEN {t} ELSE {}
        ELSE CASE v.s = "init" -> IF v.n \in InitRes(c, s)
                                  THEN {IF v.n = 0 THEN [Fresh(c, t) EXCEPT !.ph = "none", !.life = "ready", !.bro = FALSE] ELSE [t EXCEPT !.ph = "none", !.bro = TRUE]} ELSE {}
               [] v.s = "run" -> IF v.n \in RunRes(c, s) THEN {[t EXCEPT !.ph = "none", !.shut = FALSE]} ELSE {}
               \* a destroy that fails leaves a pipeline that cannot run any more either
               [] v.s = "destroy" -> IF v.n \in DestroyRes(c, s) THEN {[Gone(c, t) EXCEPT !.ph = "none", !.life = "fresh", !.bro = v.n # 0]} ELSE {}
               [] v.s \in {"process", "perf"} ->
                    (IF s.ph = "init" /\ v.n # 0 /\ v.n \in InitRes(c, s) THEN {[t EXCEPT !.ph = "none", !.bro = TRUE]} ELSE {})
                    \cup (IF s.ph = "destroy" /\ DestroyRes(c, s) # {} /\ ((v.n = s.res /\ (s.res # 0 \/ DestroyRes(c, s) = {0})) \/ (s.res = 0 /\ v.n \in DestroyRes(c, s)) \/ (v.n = CRASH /\ CRASH \in DestroyRes(c, s)))
                          THEN {[Gone(c, t) EXCEPT !.ph = "none", !.life = "fresh", !.bro = DestroyRes(c, s) # {0}]} ELSE {})
                    \* nothing to destroy: no events between
                    \cup (IF \A e \in Elems(c) : ~Logs(c, s, e)
                          THEN {[t EXCEPT !.ph = "none", !.life = "fresh"]} ELSE {})
               [] v.s = "arun" -> IF v.n = 0 THEN {[s EXCEPT !.call[i].op = "run", !.call[i].th = 1000]} ELSE {}
               [] v.s = "aproc" -> IF v.n = 0 THEN {[s EXCEPT !.call[i].th = 1000]} ELSE {}
               [] v.s \in {"cancel", "suspend"} ->
                    IF neg THEN (IF m.ok /\ Up(s) THEN {} ELSE {t})
                    ELSE IF s.ph = "run" /\ m.cl
                         THEN {[t EXCEPT !.shut = TRUE, !.stop = v.s = "cancel", !.grace = Grace(c, s)]}
                         ELSE {t}
               [] v.s = "resume" -> IF neg /\ m.ok /\ Up(s) THEN {} ELSE {t}
               [] OTHER -> {t}

(* "await": the future of an asynchronous operation delivers its result *)
EvAwait(c, s, v) ==
    LET I == CallIdx(s, 1000)
        J == CallIdx(s, v.e)
    IN  IF I = {} \/ J = {} THEN {}
        ELSE LET i == CHOOSE j \in I : TRUE
                 j == CHOOSE k \in J : TRUE
             IN  EvRet(c, DropCall(s, j), [v EXCEPT !.e = 1000, !.s = CHOOSE o \in {"run", "process"} : s.call[i].op = o])

(* isTimeout(): true inside an element that was left behind (it, or a group around it, has timed out and the *)
(* run went on; or a GSome around it did not wait for it), and never without a reason                        *)
RECURSIVE Chain(_, _)
Chain(c, e) == {e} \cup (IF c.par[e] = 0 THEN {} ELSE Chain(c, c.par[e]))
MustSee(c, s, e) ==
    s.ph = "run" /\ \E f \in Chain(c, e) :
        \/ s.el[f].tmo /\ s.el[f].ph \in {"fin", "head", "done"} /\ Held(c, f) /\ ~Loose(c, s, f) /\ (f = e \/ Straggles(c, s, f))
        \/ SomeKid(c, f) /\ Busy(c, s, f) /\ s.el[c.par[f]].ph \in {"fin", "done"} /\ ~Loose(c, s, c.par[f])
MaySee(c, s, e) ==
    \/ UnderTimeout(c, s, e)
    \/ \E f \in Chain(c, e) : c.to[f] > 0 /\ c.tos[f] = 2 /\ (s.el[f].det \/ s.el[f].out > (IF s.el[f].ph = "body" THEN 1 ELSE 0))
SawOk(c, s, v) == IF v.n = 0 THEN ~s.el[v.e].see ELSE MaySee(c, s, v.e)
Asked(c, s, e) == Put(s, e, [s.el[e] EXCEPT !.see = MustSee(c, s, e)])

RunEvents == {"prep", "rb", "re", "hold", "chk", "choose", "match", "reshape"}
RunStep(c, s, v) ==
    CASE v.v = "prep" -> EvPrep(c, s, v)
      [] v.v = "rb" -> EvRb(c, s, v)
      [] v.v = "re" -> EvRe(c, s, v)
      [] v.v = "hold" -> EvHold(c, s, v)
      [] v.v = "chk" -> EvChk(c, s, v)
      [] v.v = "choose" -> EvChoose(c, s, v)
      [] v.v = "match" -> EvMatch(c, s, v)
      [] v.v = "reshape" -> EvReshape(c, s, v)
      [] OTHER -> EvAspRun(c, s, v)

InProcess(s) == \E i \in DOMAIN s.call : s.call[i].op = "process" /\ s.call[i].ok
(* phases of process() follow each other silently *)
Phases(c, s) ==
    IF ~InProcess(s) THEN {s}
    ELSE {s, Turn(c, s)}
         \cup (IF s.ph = "init" /\ InitRes(c, s) = {0} /\ s.left > 0 THEN {ToRun(c, [s EXCEPT !.life = "ready"])} ELSE {})
         \cup (IF s.ph = "init" /\ InitRes(c, s) = {0} /\ s.left = 0 THEN {ToDestroy(c, [s EXCEPT !.life = "ready"])} ELSE {})
         \cup (IF s.ph = "run" /\ RunRes(c, s) # {} /\ (s.left = 1 \/ RunRes(c, s) # {0} \/ s.skip)
               THEN {ToDestroy(c, [s EXCEPT !.res = r]) : r \in RunRes(c, s)} ELSE {})
         \* a cancelled process may stop between two runs
         \cup (IF s.ph = "run" /\ s.skip /\ ~s.moved THEN {ToDestroy(c, s)} ELSE {})

Step0(c, s, v) ==
    IF v.v = "call" THEN EvCall(c, s, v)
    ELSE IF v.v = "ret" THEN (IF v.s = "await" THEN UNION {EvAwait(c, t, v) : t \in Phases(c, s)} ELSE UNION {EvRet(c, t, v) : t \in Phases(c, s)})
    ELSE IF v.v = "fault" THEN {}
    ELSE IF v.v = "end" THEN {s}
    ELSE IF v.v = "isto" THEN {Asked(c, t, v.e) : t \in Phases(c, s)}
    ELSE IF v.v = "sawto" THEN {Put(t, v.e, [t.el[v.e] EXCEPT !.see = FALSE]) : t \in {u \in Phases(c, s) : SawOk(c, u, v)}}
    ELSE UNION {CASE t.ph = "init" /\ v.v = "ib" -> EvIB(c, t, v)
                  [] t.ph = "init" /\ v.v = "ie" -> EvIE(c, t, v)
                  [] t.ph = "init" /\ v.v = "asp" -> EvAspInit(c, t, v, "bi", "fi")
                  [] t.ph = "destroy" /\ v.v = "db" -> EvIB(c, t, v)
                  [] t.ph = "destroy" /\ v.v = "de" -> EvIE(c, t, v)
                  [] t.ph = "destroy" /\ v.v = "asp" -> EvAspInit(c, t, v, "bd", "fd")
                  [] t.ph = "run" /\ (v.v \in RunEvents \/ v.v = "asp") ->
                        UNION {LET x == [w EXCEPT !.moved = TRUE] IN IF x.skip THEN {x, Turn(c, x)} ELSE {Turn(c, x)} : w \in UNION {CrashUp(c, u, v.e) : u \in RunStep(c, t, v)}}
                  [] t.ph = "none" /\ v.v \in RunEvents \cup {"asp"} /\ (Loose(c, t, v.e) \/ (t.el[v.e].det /\ ~Held(c, v.e))) -> RunStep(c, t, v)
                  [] t.ph # "run" /\ v.v \in {"rb", "re"} ->      \* bodies that outlived their run (timeout without hold)
                        (IF t.el[v.e].out + t.el[v.e].pend > 0 /\ ~Held(c, v.e)
                         THEN (IF v.v = "rb" /\ t.el[v.e].pend > 0 THEN {Put(t, v.e, [t.el[v.e] EXCEPT !.pend = @ - 1, !.out = @ + 1])}
                               ELSE IF v.v = "re" /\ t.el[v.e].out > 0 THEN {Put(t, v.e, [t.el[v.e] EXCEPT !.out = @ - 1])} ELSE {})
                         ELSE {})
                  [] OTHER -> {}
                : t \in Phases(c, s)}

(* what follows the end of a body follows at once: no time passes while an element that is over, or a group   *)
(* with nothing to wait for any more, has not said so (unless somebody suspends the pipeline; after an error  *)
(* tasks that will not be executed any more, and those of unlinked elements, may still wait for the pool)     *)
SLACK == 2
Overdue(c, s) ==
    s.ph = "run" /\ \E e \in Elems(c) :
        \/ s.el[e].ph \in {"post", "fin", "tasp", "crash"}
        \/ s.el[e].ph = "go" /\ c.k[e] \in {"some", "region", "cluster", "cond", "mcs", "mcp"} /\ (c.k[e] = "region" => \A d \in Ran(c.ch[e]) : c.vis[d] = 1) /\ LET R == BodyRes(c, s, e) IN R = {0} \/ (c.k[e] = "some" /\ R # {} /\ CRASH \notin R)
Step(c, s, v) ==
    IF v.ms > s.now + SLACK /\ s.calm /\ Overdue(c, s) THEN {}
    ELSE {[t EXCEPT !.now = v.ms, !.calm = @ /\ ~(v.v = "call" /\ Ctl(v.s))] : t \in Step0(c, s, v)}
=============================================================================
