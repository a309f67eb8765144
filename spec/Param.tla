--------------------------------- MODULE Param ---------------------------------
(* One parameter (key) of a pipeline.  Operations take effect at one moment      *)
(* between "pb" and "pe".  Types: 1, 2, and 3 (type 1 with backtrace).  con: the  *)
(* elements (since init) and events (1000 + id) that have looked it up.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [ex |-> FALSE, ty |-> 0, val |-> 0, tr |-> <<>>, ns |-> 0]
\* life cycle: ph: none, setup (run called), go (an element has begun), reset; sd: setup / reset done in this phase
S0(c) == [x |-> None, o |-> [t \in {} |-> 0], ph |-> "none", sd |-> FALSE, bad |-> 0, in |-> 0, lc |-> "none", was |-> FALSE, con |-> {}]

Class(ty) == IF ty = 3 THEN 1 ELSE ty
Fin(s, t, r) == [s EXCEPT !.o[t].done = TRUE, !.o[t].r = r]
\* a successful lookup leaves the name of the element on the parameter (c.name[e]; 0: not traced)
Seen(x, e) == IF x.ty # 3 \/ \E i \in DOMAIN x.tr : x.tr[i] = e THEN x ELSE [x EXCEPT !.tr = Append(@, e)]

Effect(c, s, t) ==
    LET o == s.o[t]  x == s.x
    IN  IF o.done THEN {}
        ELSE CASE o.op = "pcreate" ->
                    IF ~x.ex THEN {Fin([s EXCEPT !.x = [None EXCEPT !.ex = TRUE, !.ty = o.n]], t, 0)}
                    ELSE {Fin(s, t, IF Class(x.ty) = Class(o.n) THEN 0 ELSE -1)}
               [] o.op = "premove" -> IF x.ex THEN {Fin([s EXCEPT !.x = None], t, 0)} ELSE {Fin(s, t, -1)}
               [] o.op = "pcon" -> {Fin(s, t, IF o.e \in s.con THEN 1 ELSE 0)}
               [] o.op = "pkeys" -> {Fin(s, t, IF x.ex THEN 1 ELSE 0)}
               [] o.op \in {"pget", "pinc", "ptrace"} ->
                    LET ty == IF o.op = "pget" THEN o.n ELSE 1
                        ok == x.ex /\ Class(x.ty) = Class(ty)
                    IN  IF o.st = 0
                        THEN IF ~ok THEN {Fin(s, t, IF o.op = "pget" THEN 0 ELSE -1)}
                             ELSE {[s EXCEPT !.o[t].st = 1, !.con = @ \cup {o.e}]}
                        ELSE IF o.st = 1        \* found; its name is added
                        THEN LET r == [s EXCEPT !.x = Seen(x, o.e), !.o[t].st = 2]
                             IN  IF o.op = "pget" THEN {Fin(r, t, 1)} ELSE {r}
                        ELSE IF o.op = "pinc" THEN {Fin([s EXCEPT !.x.val = @ + 1], t, x.val + 1)}
                        ELSE IF x.ty = 3 THEN {[Fin(s, t, 0) EXCEPT !.o[t].tr = x.tr]} ELSE {Fin(s, t, -2)}
               [] OTHER -> {}

RECURSIVE Close(_, _, _)
Close(c, old, new) ==
    IF new = {} THEN old
    ELSE LET more == UNION {UNION {Effect(c, s, t) : t \in DOMAIN s.o} : s \in new}
         IN  Close(c, old \cup new, more \ (old \cup new))

WithOp(s, t, o) == [s EXCEPT !.o = [u \in DOMAIN s.o \cup {t} |-> IF u = t THEN o ELSE s.o[u]]]
WithoutOp(s, t) == [s EXCEPT !.o = [u \in DOMAIN s.o \ {t} |-> s.o[u]]]

Begin(c, s, v) ==
    IF v.t \in DOMAIN s.o THEN {}
    ELSE {WithOp(s, v.t, [op |-> v.s, n |-> v.n, e |-> v.e, done |-> FALSE, st |-> 0, r |-> 0, tr |-> <<>>])}
Finish(c, s, v) ==
    IF v.t \notin DOMAIN s.o THEN {}
    ELSE LET o == s.o[v.t]
         IN  IF ~o.done \/ o.op # v.s \/ o.r # v.n \/ (o.op = "ptrace" /\ o.r = 0 /\ [i \in DOMAIN o.tr |-> IF o.tr[i] > 1000 THEN 0 ELSE o.tr[i]] # v.l) THEN {} ELSE {WithoutOp(s, v.t)}

(* the life cycle: setup() of every parameter once at the start of a run, before any element; reset() once at its end, after all elements, with the   *)
(* status of the run; init() and destroy() once with the pipeline's                                                                                    *)
Life(c, s, v) ==
    CASE v.v = "call" /\ v.s = "run" /\ v.a = 1 -> {[s EXCEPT !.ph = "setup", !.sd = FALSE, !.bad = 0, !.in = 0]}
      [] v.v = "psetup" -> IF s.ph = "setup" /\ s.x.ex /\ ~s.sd THEN {[s EXCEPT !.sd = TRUE, !.bad = IF v.n < 0 THEN v.n ELSE @]} ELSE {}
      [] v.v = "osetup" -> IF s.ph = "setup" THEN {[s EXCEPT !.bad = v.n]} ELSE {}     \* the setup of another parameter
      [] v.v \in {"prep", "rb", "re"} ->
           IF s.ph = "setup" /\ (s.x.ex => s.sd) /\ s.bad >= 0 THEN {[s EXCEPT !.ph = "go"]} ELSE IF s.ph = "go" THEN {s} ELSE {}
      [] v.v = "preset" ->
           IF s.ph \in {"go", "setup"} /\ s.x.ex /\ (s.ph = "setup" => s.sd) /\ s.bad >= 0 THEN {[s EXCEPT !.ph = "reset", !.sd = TRUE, !.in = v.n]} ELSE {}
      [] v.v = "ret" /\ v.s = "run" /\ v.a = 1 ->
           IF s.ph = "setup" THEN (IF (s.x.ex => s.sd /\ s.bad < 0) /\ (s.bad < 0 => v.n < 0) THEN {[s EXCEPT !.ph = "none"]} ELSE {})
           ELSE IF s.ph = "reset" THEN (IF s.in = v.n THEN {[s EXCEPT !.ph = "none"]} ELSE {})
           ELSE IF s.x.ex THEN {} ELSE {[s EXCEPT !.ph = "none"]}
      [] v.v = "call" /\ v.s \in {"init", "destroy"} /\ v.a = 1 -> {[s EXCEPT !.lc = v.s, !.sd = FALSE, !.was = s.x.ex, !.con = IF v.s = "init" THEN {e \in @ : e > 1000} ELSE @]}
      [] v.v \in {"pinit", "pdestroy"} -> IF s.x.ex /\ s.lc = (IF v.v = "pinit" THEN "init" ELSE "destroy") /\ ~s.sd THEN {[s EXCEPT !.sd = TRUE]} ELSE {}
      [] v.v = "ret" /\ v.s \in {"init", "destroy"} /\ v.a = 1 -> IF s.x.ex /\ s.was /\ ~s.sd THEN {} ELSE {[s EXCEPT !.lc = "none"]}
      \* objects go when they are removed, or with the pipeline
      [] v.v = "pdtor" -> IF v.a = 1 THEN (IF s.x.ex THEN {[s EXCEPT !.x = None]} ELSE {}) ELSE {s}
      [] v.v = "end" -> IF s.x.ex \/ s.ph # "none" THEN {} ELSE {s}
      [] v.v = "fault" -> {}
      [] OTHER -> {s}

StepSet(c, S, v) ==
    IF v.v = "pb" THEN UNION {Begin(c, s, v) : s \in S}
    ELSE IF v.v = "pe" THEN UNION {Finish(c, s, v) : s \in Close(c, {}, S)}
    ELSE UNION {Life(c, s, v) : s \in S}
=============================================================================
