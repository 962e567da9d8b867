------------------------------- MODULE J_Ops -------------------------------
(* Verdicts on results of the graph operators.  c.edges: stored edges <<src, dst, type, weight in 1/64, feature byte>>. *)
EXTENDS Judge
VARIABLE i
EdgesOf(c, types) == SelectSeq(c.edges, LAMBDA e : e[3] \in types)
OutOf(E, S) == {E[k][2] : k \in {x \in 1..Len(E) : E[x][1] \in S}}
RECURSIVE Within(_, _, _)
Within(E, S, h) == IF h = 0 THEN S ELSE Within(E, S \cup OutOf(E, S), h - 1)
Times(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
(* edges leave nodes less than q.hops away from the sources *)
Subgraph(c, q, a) ==
  LET E == EdgesOf(c, ToSet(q.types))
      S == ToSet(q.src)
      V == Within(E, S, q.hops)
      K == SelectSeq(E, LAMBDA e : e[1] \in Within(E, S, q.hops - 1))
      P == {<<K[k][1], K[k][2]>> : k \in 1..Len(K)}
      U == P \cup (IF q.undirected THEN {<<e[2], e[1]>> : e \in P} ELSE {}) \cup (IF q.loop THEN {<<v, v>> : v \in V} ELSE {})
      n == Len(a.nodes)
      ok == NoDup(a.nodes) /\ ToSet(a.nodes) = V IN
  Clause("subgraph-nodes", ok) \cup
  Clause("subgraph-sources", Len(a.idx) = Len(q.src) /\ \A k \in 1..Len(a.idx) : a.idx[k] \in 0..(n - 1) /\ a.nodes[a.idx[k] + 1] = q.src[k]) \cup
  (IF ~ok THEN {}
   ELSE IF q.return_edges
   THEN LET G == [k \in 1..Len(a.adj) |-> IF a.adj[k][1] \in 0..(n - 1) /\ a.adj[k][2] \in 0..(n - 1) THEN <<a.nodes[a.adj[k][1] + 1], a.nodes[a.adj[k][2] + 1]>> ELSE <<-9, -9>>] IN
        Clause("subgraph-edges", ToSet(G) = U) \cup
        Clause("subgraph-edge-times", IF q.loop \/ q.undirected THEN NoDup(G)
                 ELSE \A e \in P : Times(G, e) = Cardinality({k \in 1..Len(K) : <<K[k][1], K[k][2]>> = e}))
   ELSE Clause("subgraph-matrix", /\ Len(a.adj) = n
                 /\ \A x \in 1..n : Len(a.adj[x]) = n /\ \A y \in 1..n : a.adj[x][y] = (IF <<a.nodes[x], a.nodes[y]>> \in U THEN 1 ELSE 0)))
Skipgrams(q, a) ==
  LET n == Len(q.paths[1])
      Win == {p \in (1..n) \X (1..n) : p[1] # p[2] /\ p[2] >= p[1] - q.left /\ p[2] <= p[1] + q.right}
      All == {<<b, p>> : b \in 1..Len(q.paths), p \in Win}
      Of(x) == <<q.paths[x[1]][x[2][1]], q.paths[x[1]][x[2][2]]>>
      Count(v) == Cardinality({x \in All : Of(x) = v}) IN
  Clause("skipgram-count", Len(a.pairs) = Cardinality(All) /\ a.size = Cardinality(Win)) \cup
  Clause("skipgram-pairs", \A v \in {Of(x) : x \in All} \cup ToSet(a.pairs) : Count(v) = Times(a.pairs, v))
(* one sampled row: a stored edge of the parent, or the default when it has none *)
Row(E, strategy, dnode, p, node, type, w) ==
  IF \E k \in 1..Len(E) : E[k][1] = p
  THEN \E k \in 1..Len(E) : E[k][1] = p /\ E[k][2] = node /\ E[k][3] = type /\ (strategy # "byweight" \/ E[k][4] = w)
  ELSE node = dnode /\ type = -1 /\ (strategy # "byweight" \/ w = 0)
Short(E, q, p) == q.strategy = "randomwithoutreplacement" /\ Cardinality({k \in 1..Len(E) : E[k][1] = p}) > 0
Fanout(c, q, a) ==
  LET H == Len(q.fanouts) IN
  Clause("fanout-shape", /\ Len(a.nodes) = H + 1 /\ Len(a.types) = H /\ Len(a.w) = H /\ a.nodes[1] = q.nodes
           /\ \A h \in 1..H : Len(a.nodes[h + 1]) = Len(a.nodes[h]) * q.fanouts[h] /\ Len(a.types[h]) = Len(a.nodes[h + 1]) /\ Len(a.w[h]) = Len(a.nodes[h + 1])) \cup
  Clause("fanout-rows", \A h \in 1..H : LET E == EdgesOf(c, ToSet(q.metapath[h])) IN \A k \in 1..Len(a.nodes[h + 1]) :
           LET p == a.nodes[h][((k - 1) \div q.fanouts[h]) + 1] IN
           \/ Row(E, q.strategy, q.dnode, p, a.nodes[h + 1][k], a.types[h][k], a.w[h][k])
           \/ Short(E, q, p) /\ a.nodes[h + 1][k] = q.dnode /\ a.types[h][k] = -1)
OutEdges(c, q, a) ==
  LET E == EdgesOf(c, ToSet(q.types)) IN
  Clause("out-edges-shape", Len(a.edges) = Len(q.nodes) * q.count /\ Len(a.feats) = (IF q.feats THEN Len(a.edges) ELSE 0)) \cup
  Clause("out-edges-rows", \A k \in 1..Len(a.edges) :
           LET p == q.nodes[((k - 1) \div q.count) + 1] IN
           /\ a.edges[k][1] = p
           /\ \/ Row(E, "random", -1, p, a.edges[k][2], a.edges[k][3], 0)
              \/ Short(E, q, p) /\ a.edges[k][2] = -1 /\ a.edges[k][3] = -1) \cup
  Clause("out-edges-features", ~q.feats \/ \A k \in 1..Len(a.edges) :
           IF a.edges[k][3] = -1 THEN a.feats[k] = 0
           ELSE \E x \in 1..Len(E) : E[x][1] = a.edges[k][1] /\ E[x][2] = a.edges[k][2] /\ E[x][3] = a.edges[k][3] /\ E[x][5] = a.feats[k])
Pad(s, n, z) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE z]
(* layer by layer: neighbours without repetition, and an entry of the sparse matrix for every stored edge *)
RECURSIVE Layers(_, _, _, _, _)
Layers(c, q, a, h, prev) ==
  IF h > Len(q.metapath) THEN {}
  ELSE LET E == EdgesOf(c, ToSet(q.metapath[h]))
           m == Len(a.nodes[h].ids)
           lay == a.nodes[h + 1]
           adj == a.adj[h]
           nb == {E[k][2] : k \in {x \in 1..Len(E) : E[x][1] \in ToSet(prev)}}
           deg(v) == Cardinality({k \in 1..Len(E) : E[k][1] = v})
           total == FoldFunction(LAMBDA x, y : x + y, 0, [k \in 1..Len(prev) |-> deg(prev[k])])
           got == SubSeq(lay.ids, 1, lay.len)
           Entry(x) == <<x[1][1], IF x[1][2] \in 0..(lay.len - 1) THEN got[x[1][2] + 1] ELSE -9, x[2]>>
           ent == [k \in 1..adj.len |-> Entry(<<adj.idx[k], adj.w[k]>>)]
           exp == {<<r, k>> : r \in 1..Len(prev), k \in 1..Len(E)}
           want == {x \in exp : E[x[2]][1] = prev[x[1]]}
           val(x) == <<x[1] - 1, E[x[2]][2], E[x[2]][4]>> IN
       Clause("layer-size", Len(lay.ids) = m * q.max /\ Len(adj.idx) = m * q.max /\ Len(adj.w) = m * q.max /\ lay.len = Cardinality(nb)
                            /\ adj.len = total /\ adj.shape = <<Len(prev), Cardinality(nb)>>) \cup
       Clause("layer-nodes", lay.len <= Len(lay.ids) /\ NoDup(got) /\ ToSet(got) = nb) \cup
       Clause("layer-matrix", \A v \in {val(x) : x \in want} \cup ToSet(ent) : Cardinality({x \in want : val(x) = v}) = Times(ent, v)) \cup
       (IF NoDup(got) /\ ToSet(got) = nb THEN Layers(c, q, a, h + 1, got) ELSE {})
RECURSIVE Fits(_, _, _, _, _)
Fits(c, q, prev, m, h) ==
  IF h > Len(q.metapath) THEN TRUE
  ELSE LET E == EdgesOf(c, ToSet(q.metapath[h]))
           deg(v) == Cardinality({k \in 1..Len(E) : E[k][1] = v})
           total == FoldFunction(LAMBDA x, y : x + y, 0, [k \in 1..Len(prev) |-> deg(prev[k])]) IN
       total <= m * q.max /\ Fits(c, q, SetToSeq(OutOf(E, ToSet(prev))), m * q.max, h + 1)
Neighborhood(c, q, a) ==
  IF ~Fits(c, q, q.nodes, Len(q.nodes), 1) THEN Clause("layers-too-small", a.raised)
  ELSE Clause("layers-raise", ~a.raised) \cup (IF a.raised THEN {} ELSE
       Clause("layers-count", Len(a.nodes) = Len(q.metapath) + 1 /\ Len(a.adj) = Len(q.metapath) /\ a.nodes[1].ids = q.nodes /\ a.nodes[1].len = Len(q.nodes)) \cup
       Layers(c, q, a, 1, q.nodes))
Answer(c, q, a) == CASE q.op = "sub" -> Subgraph(c, q, a) [] q.op = "gram" -> Skipgrams(q, a) [] q.op = "fanout" -> Fanout(c, q, a)
                     [] q.op = "out" -> OutEdges(c, q, a) [] q.op = "layers" -> Neighborhood(c, q, a)
Judged(c) == UNION {Answer(c, c.ops[k], c.ans[k]) : k \in 1..Len(c.ops)}
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
===========================================================================
