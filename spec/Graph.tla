--------------------------------- MODULE Graph ---------------------------------
(* The dependency graph of a pipeline: how it is edited, and what is said about  *)
(* it: its width, which dependencies are redundant, which elements can never     *)
(* run at the same time, its relations and its drawing.  Executions follow it.   *)
(* c.k[e]: kind, c.par[e]: group (0 the pipeline), c.ch[e]: children in order,   *)
(* c.dep0[e]: initial dependencies, c.loop[e].                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ERR == -1   THROWN == -99
E(c) == 1..c.n
Range(q) == {q[i] : i \in DOMAIN q}
Groups == {"cluster", "region", "cond", "mcs", "mcp", "mutable", "some"}
S0(c) == [dep |-> [e \in E(c) |-> Range(c.dep0[e])], up |-> FALSE, on |-> {}, cnt |-> [e \in E(c) |-> 0]]

Kids(c, g) == {e \in E(c) : c.par[e] = g}
\* what e depends on, directly or not
RECURSIVE Up(_, _, _)
Up(dep, new, all) == LET n == (UNION {dep[x] : x \in new}) \ all IN IF n = {} THEN all ELSE Up(dep, n, all \cup n)
Before(dep, e) == Up(dep, {e}, {})
\* are a and b, of one scope, ordered
Ordered(dep, a, b) == a \in Before(dep, b) \/ b \in Before(dep, a)
Redundant(dep, e) == {d \in dep[e] : \E x \in dep[e] \ {d} : d \in Before(dep, x)}

Width(dep, X) ==
    LET bf == [e \in X |-> Before(dep, e)]
        anti == {A \in SUBSET X : \A a, b \in A : a \notin bf[b]}
    IN  CHOOSE n \in 0..Cardinality(X) : (\E A \in anti : Cardinality(A) = n) /\ \A A \in anti : Cardinality(A) <= n

\* the groups e is in, from the outside in, and itself
RECURSIVE Path(_, _)
Path(c, e) == IF e = 0 THEN <<>> ELSE Append(Path(c, c.par[e]), e)
\* can a and b never be executed at the same time
Separate(c, dep, a, b) ==
    IF a = b THEN FALSE
    ELSE LET p == Path(c, a)
             q == Path(c, b)
             m == CHOOSE i \in 0..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) :
                      (\A j \in 1..i : p[j] = q[j]) /\ (i < Len(p) /\ i < Len(q) => p[i + 1] # q[i + 1])
                      /\ (\A j \in 1..i : j <= Len(p) /\ j <= Len(q))
             anc == IF m = 0 THEN 0 ELSE p[m]
         IN  IF anc \in {a, b} THEN TRUE
             ELSE IF anc = 0 \/ c.k[anc] = "region" THEN Ordered(dep, p[m + 1], q[m + 1])
             ELSE c.k[anc] \in {"cluster", "cond", "mcs"}

\* regions whose elements are looked at when a graph is trimmed: those of the pipeline and those inside them
RECURSIVE Trimmed(_, _)
Trimmed(c, g) == {g} \cup UNION {Trimmed(c, r) : r \in {x \in Kids(c, g) : c.k[x] = "region"}}
RECURSIVE SumC(_, _)
SumC(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN Cardinality(f[x]) + SumC(f, D \ {x})

\* the arrows of the drawing: <<from, to>>
InMutable(c, e) == \E x \in Range(Path(c, c.par[e])) : c.k[x] = "mutable"
Arrows(c, dep) ==
    LET shown == {e \in E(c) : ~InMutable(c, e)}
    IN  {<<d, e>> \in shown \X shown : d \in dep[e]}
        \cup {<<e, e>> : e \in {x \in shown : c.k[x] \notin Groups /\ c.loop[x] > 1}}
        \cup UNION {{<<c.ch[g][i], c.ch[g][i + 1]>> : i \in 1..(Len(c.ch[g]) - 1)} : g \in {x \in shown : c.k[x] = "cluster"}}
        \cup UNION {{<<g, c.ch[g][i]>> : i \in DOMAIN c.ch[g]} : g \in {x \in shown : c.k[x] \in {"cond", "mcs", "mcp"}}}
Same(q, X) == Len(q) = Cardinality(X) /\ Range(q) = X
If(b, s) == IF b THEN {s} ELSE {}

Ret(c, s, v) ==
    CASE v.s = "init"    -> If(v.n = 0 /\ ~s.up, [s EXCEPT !.up = TRUE])
      [] v.s = "destroy" -> If(v.n = 0 /\ s.up, [s EXCEPT !.up = FALSE])
      [] v.s = "run"     -> If(v.n = 0 /\ s.on = {}, [s EXCEPT !.cnt = [e \in E(c) |-> 0]])
      [] v.s = "adddep"  -> IF s.up \/ c.par[v.e] # c.par[v.x] THEN If(v.n # 0, s)
                            ELSE If(v.n = 0, IF v.e = v.x THEN s ELSE [s EXCEPT !.dep[v.e] = @ \cup {v.x}])
      [] v.s = "rmdep"   -> IF s.up \/ v.x \notin s.dep[v.e] THEN If(v.n # 0, s) ELSE If(v.n = 0, [s EXCEPT !.dep[v.e] = @ \ {v.x}])
      [] v.s = "maxpara" -> IF s.up \/ (\E e \in Kids(c, 0) : c.k[e] \in Groups) THEN If(v.n = THROWN, s)
                            ELSE If(v.n = 0 /\ v.a = Width(s.dep, Kids(c, 0)), s)
      [] v.s = "trim"    ->
           IF s.up THEN If(v.n = THROWN, s)
           ELSE LET X == UNION {Kids(c, g) : g \in Trimmed(c, 0)}
                    r == [e \in X |-> Redundant(s.dep, e)]
                IN  If(v.n = 0 /\ v.a = SumC(r, X), [s EXCEPT !.dep = [e \in E(c) |-> IF e \in X THEN @[e] \ r[e] ELSE @[e]]])
      [] v.s = "separate" -> If(v.n = 0 /\ v.a = (IF Separate(c, s.dep, v.e, v.x) THEN 1 ELSE 0), s)
      [] v.s = "rel"     -> If(Same(v.l[1], s.dep[v.e]) /\ Same(v.l[2], {x \in E(c) : v.e \in s.dep[x]})
                               /\ v.l[3] = c.ch[v.e] /\ v.a = c.par[v.e], s)
      [] v.s = "dump"    -> If(v.n = 0 /\ Same(v.l[1], {e \in E(c) : ~InMutable(c, e)}) /\ Same(v.l[2], Arrows(c, s.dep)), s)
      [] OTHER -> {s}

\* everything in element d of the pipeline or of a region that this run executes has been executed
RECURSIVE Done(_, _, _)
Done(c, s, d) ==
    IF c.k[d] \notin Groups THEN s.cnt[d] = c.loop[d]
    ELSE IF c.k[d] \in {"cluster", "region"} THEN \A e \in Kids(c, d) : Done(c, s, e)
    ELSE \A e \in s.on : d \notin Range(Path(c, e))
Step(c, s, v) ==
    CASE v.v = "ret" -> Ret(c, s, v)
      [] v.v = "rb"  -> If(/\ s.up /\ v.e \notin s.on /\ (s.cnt[v.e] < c.loop[v.e] \/ InMutable(c, v.e))
                           /\ \A x \in Range(Path(c, v.e)) : \A d \in s.dep[x] : Done(c, s, d)
                           /\ \A f \in s.on : ~Separate(c, s.dep, v.e, f),
                           [s EXCEPT !.on = @ \cup {v.e}])
      [] v.v = "re"  -> If(v.e \in s.on, [s EXCEPT !.on = @ \ {v.e}, !.cnt[v.e] = @ + 1])
      [] v.v = "fault" -> {}
      [] OTHER -> {s}
=============================================================================
