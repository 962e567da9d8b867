----------------------------- MODULE J_Dataset -----------------------------
(* Verdicts on graphs built from raw files, as a client of the built graph sees them.  Same properties as            *)
(* Dataset.tla; c.nodes gives per node its id, features (nonzero values, in halves), label values and, where the     *)
(* raw files say it, its split (-1: chosen when building).                                                          *)
EXTENDS Judge
VARIABLE i
Judged(c) ==
  IF c.raised # "" THEN {"raises-" \o c.raised} ELSE
  LET R == 1..Len(c.nodes)
      ids == [r \in R |-> c.nodes[r].id]
      seen == c.seen
      kind == [r \in R |-> seen[r].type]
      idset == ToSet(ids)
      rowOf == [x \in idset |-> CHOOSE r \in R : ids[r] = x]
      Train(x) == kind[rowOf[x]] = 0
      Kind(l) == IF Train(l[1]) /\ Train(l[2]) THEN 0 ELSE 1
      L == 1..Len(c.links)
      \* how often an edge is stored: once, or as often as it is listed
      Wanted(a, k, b) == LET ls == {j \in L : Kind(c.links[j]) = k /\ (<<c.links[j][1], c.links[j][2]>> \in {<<a, b>>, <<b, a>>})} IN
                         IF c.bags THEN Cardinality(ls) ELSE IF ls = {} THEN 0 ELSE 1
      edges == c.edges
      E == 1..Len(edges)
      Stored(a, k, b) == Cardinality({j \in E : edges[j] = <<a, k, b>>})
      pairs == {<<c.links[j][1], c.links[j][2]>> : j \in L} \cup {<<c.links[j][2], c.links[j][1]>> : j \in L}
      \* values of the label: one number, in the order in which labels appear, or a given vector
      trainers == {ids[r] : r \in {r \in R : kind[r] = 0}} IN
  Clause("features", \A r \in R : seen[r].feats = c.nodes[r].feats) \cup
  Clause("label", \A r \in R : seen[r].label = c.nodes[r].label) \cup
  Clause("split", \A r \in R : c.nodes[r].split = kind[r] \/ (c.nodes[r].split = -1 /\ kind[r] \in {0, 1})) \cup
  Clause("split-size", c.trainers >= 0 => Cardinality(trainers) = c.trainers) \cup
  Clause("split-first", c.first => trainers = 1..c.trainers) \cup
  Clause("split-again", c.again = c.seen) \cup
  Clause("leak", \A j \in E : edges[j][2] = 0 => {edges[j][1], edges[j][3]} \subseteq trainers) \cup
  Clause("edge-foreign", \A j \in E : <<edges[j][1], edges[j][3]>> \in pairs /\ edges[j][2] \in {0, 1}) \cup
  Clause("edge-lost", c.some \/ \A p \in pairs : \A k \in {0, 1} : Stored(p[1], k, p[2]) >= Wanted(p[1], k, p[2])) \cup
  Clause("edge-extra", \A p \in pairs : \A k \in {0, 1} : Stored(p[1], k, p[2]) <= Wanted(p[1], k, p[2])) \cup
  Clause("one-way", \A p \in pairs : \A k \in {0, 1} : Stored(p[1], k, p[2]) = Stored(p[2], k, p[1])) \cup
  Clause("weights", c.weights) \cup
  Clause("node-count", \A k \in 0..2 : c.ncount[k + 1] = Cardinality({r \in R : kind[r] = k})) \cup
  Clause("edge-count", \A k \in 0..1 : c.ecount[k + 1] = Cardinality({j \in E : edges[j][2] = k})) \cup
  UNION {Clause("list-" \o c.lists[j].name, ToSet(c.lists[j].ids) = {ids[r] : r \in {r \in R : kind[r] = c.lists[j].kind}} /\ Len(c.lists[j].ids) = Cardinality(ToSet(c.lists[j].ids))) : j \in 1..Len(c.lists)} \cup
  Clause("attributes", c.attrs)
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
============================================================================
