------------------------------- MODULE J_Fire -------------------------------
(* Verdicts on forest fire samples (Fire.tla) and on graph metrics, which are defined here.  c.n nodes, c.edges pairs, *)
(* with repetitions in multigraphs.                                                                                  *)
EXTENDS Judge, FiniteSetsExt
VARIABLE i
V(c) == 0..(c.n - 1)
E(c) == ToSet(c.edges)
Sample(c) ==
  LET a == c.got IN
  IF a.raised THEN Clause("fire-raises", c.size > c.n)
  ELSE Clause("fire-size", Cardinality(ToSet(a.nodes)) = Len(a.nodes) /\ (IF c.size > c.n THEN Len(a.nodes) <= c.n ELSE Len(a.nodes) = c.size)) \cup
       Clause("fire-nodes", ToSet(a.nodes) \subseteq V(c)) \cup
       Clause("fire-edges", ToSet(a.edges) \subseteq E(c)) \cup
       Clause("fire-input-changed", a.same)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Reach(_, _, _)
Reach(X, S, k) == IF k = 0 THEN S ELSE Reach(X, S \cup {e[2] : e \in {x \in X : x[1] \in S}}, k - 1)
Comp(c, v) == {u \in V(c) : u \in Reach(E(c), {v}, c.n) /\ v \in Reach(E(c), {u}, c.n)}
Comps(c) == {Comp(c, v) : v \in V(c)}
Largest(c) == Max({Cardinality(S) : S \in Comps(c)})
Dist(X, u, v, n) == Min({k \in 0..n : v \in Reach(X, {u}, k)} \cup {99})
Diam(c, S) == LET X == {e \in E(c) : e[1] \in S /\ e[2] \in S} IN Max({Dist(X, u, v, c.n) : u \in S, v \in S})
(* determinant by the first column *)
RECURSIVE Det(_, _)
Det(M, n) == IF n = 1 THEN M[1][1]
             ELSE FoldSet(LAMBDA r, acc : acc + ((IF r % 2 = 1 THEN 1 ELSE -1) * M[r][1] *
                    Det([x \in 1..(n - 1) |-> [y \in 1..(n - 1) |-> M[IF x < r THEN x ELSE x + 1][y + 1]]], n - 1)), 0, 1..n)
Times(c, u, v) == Cardinality({k \in 1..Len(c.edges) : c.edges[k] = <<u, v>>})
(* x / scale exceeds every eigenvalue of a nonnegative matrix iff the leading minors of x I - scale A are positive *)
Above(c, x, scale) == \A m \in 1..c.n : Det([a \in 1..m |-> [b \in 1..m |-> (IF a = b THEN x ELSE 0) - (scale * Times(c, a - 1, b - 1))]], m) > 0
Nb(c, v) == ({e[2] : e \in {x \in E(c) : x[1] = v}} \cup {e[1] : e \in {x \in E(c) : x[2] = v}})
(* 60 times the clustering coefficient of a node with at most 6 neighbours *)
Clust60(c, v) == LET S == Nb(c, v) d == Cardinality(S) IN
   IF d < 2 THEN 0 ELSE (60 * Cardinality({p \in S \X S : p[1] # p[2] /\ p[2] \in Nb(c, p[1])})) \div (d * (d - 1))
Metrics(c) ==
  LET a == c.got
      m == Len(c.edges) IN
  Clause("metric-raises", a.raised = <<>>) \cup
  (IF a.raised # <<>> THEN {} ELSE
  Clause("densification", IF c.n <= 1 \/ m = 0 THEN a.dens.zero
           ELSE Pow(c.n, a.dens.lo) <= Pow(m, a.dens.q) /\ Pow(m, a.dens.q) <= Pow(c.n, a.dens.hi)) \cup
  Clause("largest-component", a.comp = <<Largest(c), c.n>>) \cup
  Clause("diameter", a.diam \in {Diam(c, S) : S \in {T \in Comps(c) : Cardinality(T) = Largest(c)}}) \cup
  Clause("eigenvalue", c.n > 4 \/ (Above(c, a.eig.hi, a.eig.scale) /\ (a.eig.lo > 0 => ~Above(c, a.eig.lo, a.eig.scale)))) \cup
  (IF \E e \in E(c) : e[1] = e[2] THEN {} ELSE
   LET sum == FoldSet(LAMBDA v, acc : acc + Clust60(c, v), 0, V(c)) IN
   (* thousandths, estimated from many trials *)
   Clause("clustering", LET d == (a.clus * 60 * c.n) - (1000 * sum) IN d <= 60 * c.n * c.tol /\ -d <= 60 * c.n * c.tol) \cup
   (* however few trials, when all nodes agree *)
   Clause("clustering-sure", (sum = 0 => a.clus = 0) /\ (sum = 60 * c.n => a.clus = 1000))))
Judged(c) == IF c.op = "fire" THEN Sample(c) ELSE Metrics(c)
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
===========================================================================
