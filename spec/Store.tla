--------------------------------- MODULE Store ---------------------------------
(* Files pipelines are saved to and loaded from: what is in them, and which      *)
(* calls are accepted.  c.np pipelines; c.els[p]: how many elements pipeline p   *)
(* begins with; c.ad[p]: it has an adapter, which cannot be stored; c.nf files.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ERR == -1
Nothing == 0                       \* an empty pipeline
S0(c) == [up |-> [p \in 1..c.np |-> FALSE],
          has |-> [p \in 1..c.np |-> IF c.els[p] > 0 THEN p ELSE Nothing],      \* whose elements pipeline p has
          file |-> [f \in 1..c.nf |-> Nothing], ok |-> [f \in 1..c.nf |-> FALSE],
          ran |-> [p \in 1..c.np |-> {}]]

El(c, s, p) == IF s.has[p] = Nothing THEN {} ELSE 1..c.els[s.has[p]]
Stored(c, s, p) == s.has[p] = Nothing \/ c.ad[s.has[p]] = 0

\* the result of operation v.s on pipeline p = v.e, file v.f
Result(c, s, v) ==
    LET p == v.e  f == v.f
    IN  CASE v.s = "save" -> IF ~s.up[p] /\ Stored(c, s, p) THEN 0 ELSE ERR
          [] v.s = "load" -> IF ~s.up[p] /\ s.ok[f] THEN 0 ELSE ERR
          [] v.s \in {"savebad", "loadbad"} -> ERR
          [] v.s \in {"init", "run", "destroy"} -> IF s.up[p] = (v.s # "init") THEN 0 ELSE ERR
          [] OTHER -> 0
After(c, s, v) ==
    LET p == v.e  f == v.f
    IN  CASE v.s = "cut" -> [s EXCEPT !.ok[f] = @ /\ v.cut >= 1000]
          [] v.n # 0 -> s
          [] v.s = "save" -> [s EXCEPT !.file[f] = s.has[p], !.ok[f] = TRUE]
          [] v.s = "load" -> [s EXCEPT !.has[p] = s.file[f]]
          [] v.s = "init" -> [s EXCEPT !.up[p] = TRUE]
          [] v.s = "destroy" -> [s EXCEPT !.up[p] = FALSE]
          [] OTHER -> s

Step(c, s, v) ==
    CASE v.v = "rb" -> IF s.up[v.e] /\ v.f \in El(c, s, v.e) /\ v.f \notin s.ran[v.e] THEN {[s EXCEPT !.ran[v.e] = @ \cup {v.f}]} ELSE {}
      [] v.v = "ret" ->
             IF v.n = Result(c, s, v) /\ (v.s = "run" => s.ran[v.e] = (IF v.n = 0 THEN El(c, s, v.e) ELSE {}))
             THEN {After(c, [s EXCEPT !.ran[v.e] = {}], v)} ELSE {}
      [] v.v = "end" -> {s}
      [] OTHER -> {}
=============================================================================
