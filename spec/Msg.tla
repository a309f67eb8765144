---------------------------------- MODULE Msg ----------------------------------
(* Messages between graphs: send/recv topics and pub/sub connections.           *)
(*                                                                              *)
(* Every operation takes effect at one moment between its call and its return   *)
(* (a publication at one moment per subscriber); Step follows all choices of    *)
(* these moments.  Users are 0..c.u-1, topics 1..c.nt, connections 1..c.nc.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SLACK == 2
WAIT == 0   REPLACE == 1   DROP == 2
Users(c) == 0..(c.u - 1)
None == [ex |-> FALSE, size |-> 0, type |-> 0, q |-> <<>>]
NoConn == [ex |-> FALSE, size |-> 0, t |-> 0, q |-> <<>>, id |-> -1]
Idle == [k |-> "idle", x |-> 0, n |-> 0, a |-> 0, ms |-> 0, done |-> FALSE, st |-> 0, v |-> 0, left |-> {}, open |-> FALSE]

S0(c) == [top |-> [t \in 1..c.nt |-> None], con |-> [i \in 1..c.nc |-> NoConn], p |-> [u \in Users(c) |-> Idle],
          ps |-> {},           \* topics that have been bound
          ids |-> {}]          \* connection ids given out

\* a buffer of size n keeps n - 1 messages
Full(b) == Len(b.q) >= b.size - 1
Room(b, strategy) == strategy # WAIT \/ ~Full(b)
Add(b, m, strategy) ==
    IF ~Full(b) THEN [b EXCEPT !.q = Append(@, m)]
    ELSE IF strategy = REPLACE THEN [b EXCEPT !.q = Append(Tail(@), m)]
    ELSE b

Done(s, u, st, v) == [s EXCEPT !.p[u].done = TRUE, !.p[u].st = st, !.p[u].v = v]

(* Operations on different objects commute, so before the return of user u only operations on the objects that u's *)
(* operation touches are considered: topics <<1, t>>, connections <<2, i>>, the connections of a topic <<3, t>>.      *)
Tok(c, s, u) ==
    LET o == s.p[u]
        on(t) == {<<2, i>> : i \in {j \in 1..c.nc : s.con[j].ex /\ s.con[j].t = t}} \cup {<<3, t>>}
    IN  CASE o.k = "idle" \/ o.done -> {}
          [] o.k \in {"create", "remove", "send", "recv"} -> {<<1, o.x>>}
          [] o.k = "sub" -> {<<2, o.x>>, <<3, s.con[o.x].t>>}
          [] o.k \in {"bind", "detach"} -> on(o.x) \cup {<<2, o.a>>}
          [] o.k \in {"pub", "drop"} -> on(o.x) \cup {<<2, i>> : i \in o.left}
          [] OTHER -> {<<1, t>> : t \in 1..c.nt} \cup {<<2, i>> : i \in 1..c.nc} \cup {<<3, t>> : t \in 0..c.nt}
RECURSIVE Grow(_, _, _)
Grow(c, s, K) == LET L == K \cup UNION {Tok(c, s, w) : w \in {x \in Users(c) : s.p[x].k \notin {"pub", "sub"} /\ Tok(c, s, x) \cap K # {}}}
                 IN  IF L = K THEN K ELSE Grow(c, s, L)

(* the states after the operation of user u has (further) taken effect; now is the current time *)
Effect(c, s, u, now, K) ==
    LET o == s.p[u]
    IN  IF o.k = "idle" \/ o.done \/ Tok(c, s, u) \cap K = {} THEN {}
        ELSE CASE o.k = "create" ->
               IF ~s.top[o.x].ex THEN {Done([s EXCEPT !.top[o.x] = [ex |-> TRUE, size |-> o.n, type |-> o.a, q |-> <<>>]], u, 0, 0)}
               ELSE {Done(s, u, IF s.top[o.x].size = o.n /\ s.top[o.x].type = o.a THEN 0 ELSE -1, 0)}
          [] o.k = "remove" ->
               IF s.top[o.x].ex THEN {Done([s EXCEPT !.top[o.x] = None], u, 0, 0)} ELSE {Done(s, u, -1, 0)}
          [] o.k = "send" ->
               IF ~s.top[o.x].ex THEN {Done(s, u, -1, 0)}
               ELSE IF Room(s.top[o.x], o.a) THEN {Done([s EXCEPT !.top[o.x] = Add(@, o.n, o.a)], u, 0, 0)} ELSE {}
          [] o.k = "recv" ->
               IF ~s.top[o.x].ex THEN {Done(s, u, -1, 0)}
               ELSE IF s.top[o.x].q # <<>> THEN {Done([s EXCEPT !.top[o.x].q = Tail(@)], u, 0, Head(s.top[o.x].q))}
               ELSE IF now >= o.ms + o.n - 1 THEN {Done(s, u, -1, 0)} ELSE {}
          [] o.k = "bind" ->
               {Done([s EXCEPT !.con[o.a] = IF o.a # c.obj THEN @ ELSE [ex |-> TRUE, size |-> o.n, t |-> o.x, q |-> <<>>, id |-> -1], !.ps = @ \cup {o.x}], u, 0, 0)}
          [] o.k = "detach" ->
               IF o.x \notin s.ps THEN {Done(s, u, -1, 0)}
               ELSE {Done([s EXCEPT !.con[o.a] = IF @.ex /\ @.t = o.x THEN NoConn ELSE @], u, 0, 0)}
          [] o.k = "drop" ->
               IF o.x \notin s.ps THEN {Done(s, u, -1, 0)}
               ELSE {Done([s EXCEPT !.con = [i \in 1..c.nc |-> IF s.con[i].ex /\ s.con[i].t = o.x THEN NoConn ELSE s.con[i]], !.ps = @ \ {o.x}], u, 0, 0)}
          [] o.k = "pub" ->
               IF ~o.open THEN IF o.x \notin s.ps THEN {Done(s, u, -1, 0)}
                               ELSE LET L == {i \in 1..c.nc : s.con[i].ex /\ s.con[i].t = o.x}
                                        r == [s EXCEPT !.p[u].open = TRUE, !.p[u].left = L]
                                    IN  {IF L = {} THEN Done(r, u, 0, 0) ELSE r}
               ELSE {LET r == [s EXCEPT !.con[i] = Add(@, o.n, o.a), !.p[u].left = @ \ {i}]
                     IN  IF r.p[u].left = {} THEN Done(r, u, 0, 0) ELSE r
                     : i \in {j \in o.left : <<2, j>> \in K /\ Room(s.con[j], o.a)}}
          [] o.k = "sub" ->
               IF ~s.con[o.x].ex THEN {Done(s, u, -1, 0)}
               ELSE IF s.con[o.x].q # <<>> THEN {Done([s EXCEPT !.con[o.x].q = Tail(@)], u, 0, Head(s.con[o.x].q))}
               ELSE IF now >= o.ms + o.n - 1 THEN {Done(s, u, -1, 0)} ELSE {}
          [] o.k = "clear" ->
               {Done([s EXCEPT !.top = [t \in 1..c.nt |-> None], !.con = [i \in 1..c.nc |-> NoConn], !.ps = {}, !.ids = {}], u, 0, 0)}
          [] OTHER -> {}

RECURSIVE Close(_, _, _, _, _)
\* what may have happened up to the effect of u's operation
Close(c, old, new, u, now) ==
    IF new = {} THEN old
    ELSE LET more == UNION {IF s.p[u].done THEN {} ELSE LET K == Grow(c, s, Tok(c, s, u)) IN UNION {Effect(c, s, w, now, K) : w \in Users(c)} : s \in new}
         IN  Close(c, old \cup new, more \ (old \cup new), u, now)

Call(c, s, v) == IF s.p[v.u].k # "idle" THEN {}
                 ELSE {[s EXCEPT !.p[v.u] = [Idle EXCEPT !.k = v.s, !.x = v.e, !.n = v.n, !.a = v.a, !.ms = v.ms]]}
Ret(c, s, v) ==
    LET o == s.p[v.u]
        r == [s EXCEPT !.p[v.u] = Idle]
    IN  IF o.k # v.s \/ ~o.done \/ o.st # v.n THEN {}
        ELSE CASE o.k \in {"recv", "sub"} -> IF v.a = o.v /\ v.ms <= o.ms + o.n + SLACK THEN {r} ELSE {}
               [] o.k = "bind" ->       \* connection ids are unique
                    IF v.a \in s.ids THEN {} ELSE {[r EXCEPT !.ids = @ \cup {v.a}, !.con[o.a].id = v.a]}
               [] OTHER -> {r}

\* the traced step: one observed event, with everything that may have taken effect before it
StepSet(c, S, v) ==
    LET T == Close(c, {}, S, v.u, v.ms)
    IN  CASE v.v = "call" -> UNION {Call(c, s, v) : s \in S}
          [] v.v = "ret"  -> UNION {Ret(c, s, v) : s \in T}
          [] v.v = "end"  -> {s \in S : \A u \in Users(c) : s.p[u].k = "idle"}
          [] OTHER -> {}
=============================================================================
