-------------------------------- MODULE GraphMC --------------------------------
(* What Graph says about a graph against what its executions can do: for every   *)
(* graph of up to N elements, in all nestings of groups, its executions (by an   *)
(* executor of its own, below) are enumerated.                                   *)
EXTENDS Graph, IOUtils
Deep == IOEnv.MC_TIER = "thorough"
N == IF Deep THEN 5 ELSE 4
Kinds == {"cluster", "region", "cond", "mcs", "mcp"}

Pars(n) == {f \in [1..n -> 0..(n - 1)] : \A e \in 1..n : f[e] < e}
Has(f, e) == \E x \in DOMAIN f : f[x] = e
Ks(n, f) == {k \in [1..n -> Kinds \cup {"node"}] : \A e \in 1..n : (k[e] = "node") = ~Has(f, e)}
\* dependencies only on earlier elements of the same scope (any acyclic graph, up to names), none within sequences and choices
Pairs(n, f, k) == {<<a, b>> \in (1..n) \X (1..n) : a < b /\ f[a] = f[b] /\ (IF f[a] = 0 THEN TRUE ELSE k[f[a]] = "region")}
RECURSIVE Asc(_, _)
Asc(X, m) == IF m = 0 THEN <<>> ELSE LET q == Asc(X, m - 1) IN IF m \in X THEN Append(q, m) ELSE q
Cfg(n, f, k, D) == [n |-> n, k |-> k, par |-> f, ch |-> [g \in 1..n |-> Asc({e \in 1..n : f[e] = g}, n)], loop |-> [e \in 1..n |-> 1],
                    dep0 |-> [e \in 1..n |-> Asc({d \in 1..n : <<d, e>> \in D}, n)]]
VARIABLE c
Init == \E n \in 1..N : \E f \in Pars(n) : \E k \in Ks(n, f) : \E D \in SUBSET Pairs(n, f, k) : c = Cfg(n, f, k, D)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* an executor: x[e] = 0 not begun, 1 begun, 2 ended
Parent(e) == c.par[e]
CanBegin(dep, x, e) ==
    /\ x[e] = 0
    /\ (Parent(e) # 0 => x[Parent(e)] = 1)
    /\ \A d \in dep[e] : x[d] = 2
    /\ IF Parent(e) = 0 THEN TRUE
       ELSE LET sib == Kids(c, Parent(e)) \ {e}
            IN  CASE c.k[Parent(e)] = "cluster" -> \A s \in sib : s < e => x[s] = 2
                  [] c.k[Parent(e)] = "cond" -> \A s \in sib : x[s] = 0
                  [] c.k[Parent(e)] = "mcs" -> \A s \in sib : x[s] # 1 /\ (s > e => x[s] = 0)
                  [] OTHER -> TRUE
CanEnd(x, e) ==
    /\ x[e] = 1
    /\ CASE c.k[e] \in {"cluster", "region"} -> \A s \in Kids(c, e) : x[s] = 2
         [] OTHER -> \A s \in Kids(c, e) : x[s] # 1
Post(dep, x) == {[x EXCEPT ![e] = 1] : e \in {y \in E(c) : CanBegin(dep, x, y)}} \cup {[x EXCEPT ![e] = 2] : e \in {y \in E(c) : CanEnd(x, y)}}
RECURSIVE Reach(_, _, _)
Reach(dep, new, all) == LET n == (UNION {Post(dep, x) : x \in new}) \ all IN IF n = {} THEN all ELSE Reach(dep, n, all \cup n)
All(dep) == LET i == {[e \in E(c) |-> 0]} IN Reach(dep, i, i)
Dep == S0(c).dep
Red == LET X == UNION {Kids(c, g) : g \in Trimmed(c, 0)} IN [e \in E(c) |-> IF e \in X THEN Redundant(Dep, e) ELSE {}]
Trim == [e \in E(c) |-> Dep[e] \ Red[e]]
Flat == \A e \in E(c) : c.par[e] = 0

\* two elements are separate iff no execution has both at work
SeparateExact == LET R == All(Dep) IN \A a \in E(c) : \A b \in E(c) \ {a} : Separate(c, Dep, a, b) = (\A x \in R : ~(x[a] = 1 /\ x[b] = 1) \/ a \in Range(Path(c, b)) \/ b \in Range(Path(c, a)))
\* what trim removes changes no execution, and whatever it leaves matters
TrimSame == All(Dep) = All(Trim)
TrimMinimal == \A e \in E(c) : \A d \in Trim[e] : (c.par[e] = 0 \/ e \in UNION {Kids(c, g) : g \in Trimmed(c, 0)}) => All([Trim EXCEPT ![e] = @ \ {d}]) # All(Trim)
\* the width is the largest number of elements at work at once (Dilworth: and so many chains cover them)
WidthExact == Flat => LET w == Width(Dep, E(c))
                      IN  /\ \A x \in All(Dep) : Cardinality({e \in E(c) : x[e] = 1}) <= w
                          /\ \E x \in All(Dep) : Cardinality({e \in E(c) : x[e] = 1}) = w
                          /\ \E q \in [E(c) -> 1..w] : \A a, b \in E(c) : a # b /\ q[a] = q[b] => Ordered(Dep, a, b)
=============================================================================
