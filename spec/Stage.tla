--------------------------------- MODULE Stage ---------------------------------
(* A stage with threshold c.n: whoever enters waits until c.n parties of the    *)
(* same round have come; the launch function runs once per round, after all of  *)
(* them have come and before any of them leaves.  Stage c.id; c.known = 0: the  *)
(* pipeline has no such stage and entering it fails at once.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S0(c) == [wait |-> {}, lead |-> <<>>, free |-> {}]
Size(c) == IF c.n < 1 THEN 1 ELSE c.n

Step(c, s, v) ==
    CASE v.v = "sb" -> IF v.t \in s.wait \cup s.free THEN {} ELSE {[s EXCEPT !.wait = @ \cup {v.t}]}
      \* the launching party and Size - 1 others make up the round
      [] v.v = "slb" ->
           IF c.known = 0 \/ v.t \notin s.wait \/ s.lead # <<>> THEN {}
           ELSE {[s EXCEPT !.lead = <<v.t, G>>, !.wait = @ \ G] : G \in {X \in SUBSET s.wait : Cardinality(X) = Size(c) /\ v.t \in X}}
      [] v.v = "sle" ->
           IF s.lead = <<>> THEN {} ELSE IF s.lead[1] # v.t THEN {} ELSE {[s EXCEPT !.lead = <<>>, !.free = @ \cup s.lead[2]]}
      [] v.v = "se" ->
           IF c.known = 0 THEN (IF v.t \in s.wait /\ v.a < 0 THEN {[s EXCEPT !.wait = @ \ {v.t}]} ELSE {})
           ELSE IF v.t \in s.free /\ v.a = 0 THEN {[s EXCEPT !.free = @ \ {v.t}]} ELSE {}
      [] v.v \in {"ret", "end"} -> IF s = S0(c) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
