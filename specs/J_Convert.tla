--------------------------- MODULE J_Convert ---------------------------
(* Verdicts on recorded conversions.  A run has: exp (the nodes and edges the input declares), parts (raw files  *)
(* of each partition), meta (<<>> or <<metadata>>), alias (tables), and the settings it was made with.          *)
EXTENDS Judge, Store
VARIABLE i
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumBy(s, F(_)) == Sum([k \in 1..Len(s) |-> F(s[k])])
MaxOf(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)
Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})

(* --- content ------------------------------------------------------------------------------------------------ *)
NodeIs(s, e) == s.id = e.id /\ s.type = e.type /\ SameFeatures(s.feats, e.feats)
EdgeIs(s, e) == s.src = e.src /\ s.dst = e.dst /\ s.type = e.type /\ s.w = e.w /\ SameFeatures(s.feats, e.feats)
EdgeTimedIs(s, e) == EdgeIs(s, e) /\ s.created = e.created /\ s.removed = e.removed
AllNodes(c) == Flat([k \in 1..Len(c.parts) |-> NodeRecs(c.parts[k])])
AllEdges(c) == Flat([k \in 1..Len(c.parts) |-> EdgeRecs(c.parts[k])])
(* equality of declared records, as far as Is looks: Key *)
Same(stored, declared, Is(_, _), Key(_)) ==
  /\ Len(stored) = Len(declared)
  /\ \A e \in {declared[k] : k \in 1..Len(declared)} :
        Count(stored, LAMBDA s : Is(s, e)) = Count(declared, LAMBDA x : Key(x) = Key(e))
NodeKey(n) == <<n.id, n.type, n.feats>>
EdgeKey(e) == <<e.src, e.dst, e.type, e.w, e.feats>>
TimedKey(e) == <<EdgeKey(e), e.created, e.removed>>
(* one node's edges declared twice alike in everything but the encoding of features do not occur in the runs *)
InOrder(stored, declared, Is(_, _)) == Len(stored) = Len(declared) /\ \A k \in 1..Len(stored) : Is(stored[k], declared[k])
Content(c) ==
  Clause("node-records", Same(AllNodes(c), c.exp.nodes, NodeIs, NodeKey)) \cup
  Clause("edge-records", Same(AllEdges(c), c.exp.edges, EdgeIs, EdgeKey)) \cup
  Clause("edge-lifetimes", c.watermark = "" \/ Same(AllEdges(c), c.exp.edges, EdgeTimedIs, TimedKey)) \cup
  Clause("edges-sorted-by-type", \A k \in 1..Len(c.parts) : TypesSorted(c.parts[k])) \cup
  Clause("placeholders-bare", \A k \in 1..Len(c.parts) : PlaceholdersBare(c.parts[k])) \cup
  Clause("lifetimes-written-iff-asked", \A k \in 1..Len(c.parts) : c.parts[k].temporal = (c.watermark # "")) \cup
  Clause("watermark", \A k \in 1..Len(c.parts) : c.parts[k].temporal => c.parts[k].wm = c.watermark) \cup
  (* records given straight to one partition writer come back in their order *)
  Clause("record-order", c.ordered => Len(c.parts) = 1 /\ InOrder(NodeRecs(c.parts[1]), c.exp.nodes, NodeIs)
                                      /\ InOrder(EdgeRecs(c.parts[1]), c.exp.edges, LAMBDA a, b : IF c.watermark = "" THEN EdgeIs(a, b) ELSE EdgeTimedIs(a, b)))

(* --- metadata ------------------------------------------------------------------------------------------------ *)
TypeCount(s) == IF s = <<>> THEN 0 ELSE 1 + MaxOf([k \in 1..Len(s) |-> s[k].type])
FeatCount(s) == IF s = <<>> THEN 0 ELSE MaxOf([k \in 1..Len(s) |-> Len(s[k].feats)])
PerType(s, n) == [t \in 1..n |-> Count(s, LAMBDA x : x.type = t - 1)]
WeightOf(c, id) == LET k == CHOOSE k \in 1..Len(c.exp.nodes) : c.exp.nodes[k].id = id IN c.exp.nodes[k].w64
PartNodeWeights(c, p, n) == [t \in 1..n |-> SumBy(SelectSeq(NodeRecs(p), LAMBDA x : x.type = t - 1), LAMBDA x : WeightOf(c, x.id))]
PartEdgeWeights(p, n) == [t \in 1..n |-> SumBy(SelectSeq(SubSeq(p.ei, 1, Len(p.ei) - 1), LAMBDA x : x.type = t - 1), LAMBDA x : x.w64)]
MetaOK(c) ==
  IF c.meta = <<>> THEN {"metadata-missing"} ELSE
  LET m == c.meta[1]
      nt == TypeCount(c.exp.nodes)
      et == TypeCount(c.exp.edges)
  IN Clause("meta-node-count", m.nodes = Len(c.exp.nodes)) \cup
     Clause("meta-edge-count", m.edges = Len(c.exp.edges)) \cup
     Clause("meta-type-counts", m.ntypes = nt /\ m.etypes = et) \cup
     Clause("meta-feature-counts", m.nfeats = FeatCount(c.exp.nodes) /\ m.efeats = FeatCount(c.exp.edges)) \cup
     Clause("meta-nodes-per-type", m.npt = PerType(c.exp.nodes, nt)) \cup
     Clause("meta-edges-per-type", m.ept = PerType(c.exp.edges, et)) \cup
     Clause("meta-version", m.version = c.version) \cup
     Clause("meta-watermark", m.wm = (IF c.watermark = "" THEN "-1" ELSE c.watermark)) \cup
     Clause("meta-reader", LET q == c.reader[1] IN q.version = c.version /\ q.nodes = Len(c.exp.nodes) /\ q.edges = Len(c.exp.edges) /\ q.ntypes = nt /\ q.etypes = et
                           /\ q.parts = Len(m.parts) /\ q.npt = PerType(c.exp.nodes, nt) /\ q.ept = PerType(c.exp.edges, et) /\ q.wm = m.wm) \cup
     Clause("meta-partitions", Len(m.parts) = Len(c.parts) /\ (c.exact_parts => Len(m.parts) = c.partitions) /\
                               \A k \in 1..Len(m.parts) : m.parts[k].id = c.parts[k].id) \cup
     (IF Len(m.parts) # Len(c.parts) \/ \E n \in 1..Len(AllNodes(c)) : \A k \in 1..Len(c.exp.nodes) : c.exp.nodes[k].id # AllNodes(c)[n].id THEN {} ELSE
      Clause("meta-partition-node-weights", \A k \in 1..Len(m.parts) : m.parts[k].nw = PartNodeWeights(c, c.parts[k], nt)) \cup
      Clause("meta-partition-edge-weights", \A k \in 1..Len(m.parts) : m.parts[k].ew = PartEdgeWeights(c.parts[k], et)))

(* --- alias tables -------------------------------------------------------------------------------------------- *)
Scale == 262144
(* the elements of one type in a partition, with their weights *)
NodeElems(c, p, t) == LET ns == SelectSeq(NodeRecs(p), LAMBDA x : x.type = t) IN [k \in 1..Len(ns) |-> [id |-> ns[k].id, w |-> WeightOf(c, ns[k].id)]]
EdgeElems(p, t) == LET es == SelectSeq(EdgeRecs(p), LAMBDA x : x.type = t) IN
   [k \in 1..Len(es) |-> [id |-> es[k].src \o "-" \o es[k].dst, w |-> 0]]
EdgeWeightsOf(c, p, t) ==  \* src-dst -> total weight, from the declared edges of this partition's entries
   LET es == SelectSeq(c.exp.edges, LAMBDA x : x.type = t) IN [k \in 1..Len(es) |-> [id |-> es[k].src \o "-" \o es[k].dst, w |-> es[k].w64]]
Mass(rows, id) == SumBy(rows, LAMBDA r : (IF r.id = id THEN r.p ELSE 0) + (IF ~r.one /\ r.other = id THEN Scale - r.p ELSE 0))
(* r/t in units of 1/2^k, without leaving 32 bits *)
RECURSIVE Bits(_, _, _)
Bits(r, t, k) == IF k = 0 THEN 0 ELSE IF 2 * r >= t THEN 2 ^ (k - 1) + Bits(2 * r - t, t, k - 1) ELSE Bits(2 * r, t, k - 1)
Share(x, t) == (x \div t) * Scale + Bits(x % t, t, 18)
TableOK(tab, elems) ==
  LET rows == tab.rows
      n == Len(rows)
      ids == {elems[k].id : k \in 1..Len(elems)}
      total == SumBy(elems, LAMBDA x : x.w)
      wt(id) == SumBy(elems, LAMBDA x : IF x.id = id THEN x.w ELSE 0)
      gap(id) == LET d == Mass(rows, id) - Share(wt(id) * n, total) IN IF d < 0 THEN -d ELSE d
  IN Clause("alias-elements", tab.whole /\ Bag([k \in 1..n |-> rows[k].id]) = Bag([k \in 1..Len(elems) |-> elems[k].id])) \cup
     (IF total = 0 \/ n = 0 THEN {} ELSE
      Clause("alias-probability-range", \A k \in 1..n : rows[k].p \in 0..Scale) \cup
      Clause("alias-partner", \A k \in 1..n : rows[k].one \/ rows[k].other \in ids) \cup
      (IF \A k \in 1..n : rows[k].p \in 0..Scale THEN Clause("alias-distribution", \A id \in ids : gap(id) <= n + 2) ELSE {}))
WithEdgeWeights(p, t) == LET es == SelectSeq(SubSeq(p.ei, 1, Len(p.ei) - 1), LAMBDA x : x.type = t)
                             rs == EdgeElems(p, t) IN [k \in 1..Len(rs) |-> [id |-> rs[k].id, w |-> es[k].w64]]
Tables(c, el) == SelectSeq(c.alias, LAMBDA a : a.el = el)
AliasFor(c, el, p, t, elems) ==
  LET ts == SelectSeq(c.alias, LAMBDA a : a.el = el /\ a.part = p.id /\ a.type = t) IN
  IF ts = <<>> THEN {"alias-missing"} ELSE TableOK(ts[1], elems)
AliasOK(c) ==
  LET nt == TypeCount(c.exp.nodes)
      et == TypeCount(c.exp.edges) IN
  IF \E n \in 1..Len(AllNodes(c)) : \A k \in 1..Len(c.exp.nodes) : c.exp.nodes[k].id # AllNodes(c)[n].id THEN {"alias-unknown-node"} ELSE
  (IF c.skip_node THEN Clause("alias-not-skipped", Tables(c, "node") = <<>>)
   ELSE UNION {UNION {AliasFor(c, "node", c.parts[k], t, NodeElems(c, c.parts[k], t)) : t \in 0..(nt - 1)} : k \in 1..Len(c.parts)}) \cup
  (IF c.skip_edge THEN Clause("alias-not-skipped", Tables(c, "edge") = <<>>)
   ELSE UNION {UNION {AliasFor(c, "edge", c.parts[k], t, WithEdgeWeights(c.parts[k], t)) : t \in 0..(et - 1)} : k \in 1..Len(c.parts)})

(* --- placement ------------------------------------------------------------------------------------------------ *)
(* owners: per worker the partitions it reported;  placed: <<node id, partition>> chosen by the caller's function *)
Ids(c) == {k - 1 : k \in 1..c.partitions}
PartOf(c, id) == LET k == CHOOSE k \in 1..Len(c.parts) : \E n \in 1..Len(c.parts[k].map) : c.parts[k].map[n].id = id IN c.parts[k].id
Placement(c) ==
  Clause("workers-disjoint", \A a, b \in 1..Len(c.owners) : a # b => ToSet(c.owners[a]) \cap ToSet(c.owners[b]) = {}) \cup
  Clause("partitions-covered", c.exact_parts => UNION {ToSet(c.owners[a]) : a \in 1..Len(c.owners)} = Ids(c)) \cup
  Clause("record-split-over-partitions", c.format = "edgelist" \/ \A k \in 1..Len(c.parts) : \A n \in 1..Len(c.parts[k].map) : c.parts[k].map[n].type # -1) \cup
  Clause("partition-function", \A k \in 1..Len(c.placed) :
     \A q \in 1..Len(c.parts) : \A n \in 1..Len(c.parts[q].map) : c.parts[q].map[n].id = c.placed[k].id => c.parts[q].id = c.placed[k].part) \cup
  Clause("stray-partition-files", ToSet(c.files_for) \subseteq UNION {ToSet(c.owners[a]) : a \in 1..Len(c.owners)} \cup (IF c.exact_parts THEN {} ELSE Ids(c)))

Clauses(c) ==
  IF c.must_reject THEN Clause("bad-lifetime-stored", c.end = "rejected") ELSE
  IF c.end # "ok" THEN {"conversion-" \o c.end} ELSE
  IF \E k \in 1..Len(c.parts) : c.parts[k].ragged \/ ~WellFormed(c.parts[k]) THEN {"index-structure"} ELSE
  (IF "placement" \in ToSet(c.judge) THEN Placement(c) ELSE {}) \cup
  (IF "content" \in ToSet(c.judge) THEN Content(c) ELSE {}) \cup
  (IF "meta" \in ToSet(c.judge) THEN MetaOK(c) ELSE {}) \cup
  (IF "alias" \in ToSet(c.judge) THEN AliasOK(c) ELSE {})
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Clauses(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=======================================================================
