----------------------------- MODULE Graph -----------------------------
(* The graph a user sees through the engine, and what each query on it means.                                     *)
(* Storage is a sequence of partitions, each a sequence of entries [id, type, feats, edges]; an entry of type -1   *)
(* only carries edges whose source node is declared elsewhere.  Times are ranks on the time axis, -1 = never.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Never == -1
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Times(x, n) == [k \in 1..n |-> x]
BagOf(s) == [x \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
Within(a, b) == \A x \in DOMAIN a : x \in DOMAIN b /\ a[x] <= b[x]

(* --- the graph held by some partitions ---------------------------------------------------------------------- *)
Entries(parts) == Concat(parts)
NodeSet(parts) == {e \in ToSet(Entries(parts)) : e.type # -1}
IsNode(parts, id) == \E e \in NodeSet(parts) : e.id = id
NodeOf(parts, id) == CHOOSE e \in NodeSet(parts) : e.id = id
OutEdges(parts, id) == LET es == SelectSeq(Entries(parts), LAMBDA e : e.id = id) IN Concat([k \in 1..Len(es) |-> es[k].edges])

Alive(x, t) == x.created <= t /\ (x.removed = Never \/ t < x.removed)
(* the edges of a node a query may use: types asked for, alive at the time given (<<>>: no time given) *)
Eligible(parts, id, etypes, t) ==
  SelectSeq(OutEdges(parts, id), LAMBDA x : x.type \in etypes /\ (t = <<>> \/ Alive(x, t[1])))
EdgesBetween(parts, src, dst, type, t) ==
  SelectSeq(OutEdges(parts, src), LAMBDA x : x.dst = dst /\ x.type = type /\ (t = <<>> \/ Alive(x, t[1])))

TypeOf(parts, id, default) == IF IsNode(parts, id) THEN NodeOf(parts, id).type ELSE default

(* --- features --------------------------------------------------------------------------------------------------- *)
NoFeature == [k |-> "none"]
(* the value of a feature list at a time: for a temporal feature the last version started by then *)
ValueAt(f, t) ==
  IF f.k # "temporal" THEN f ELSE
  LET ok == {k \in 1..Len(f.items) : f.items[k].start <= t[1]} IN
  IF ok = {} THEN NoFeature ELSE
  LET best == CHOOSE k \in ok : \A j \in ok : f.items[j].start <= f.items[k].start IN f.items[best].val
Feature(feats, fid, t) == IF fid + 1 > Len(feats) THEN NoFeature ELSE ValueAt(feats[fid + 1], t)
BytesOf(f) == CASE f.k = "dense" -> Concat(f.vals) [] f.k = "bin" -> f.bytes [] OTHER -> <<>>
(* dense query: exactly n bytes, padded with zeros or cut *)
Fit(b, n) == [k \in 1..n |-> IF k <= Len(b) THEN b[k] ELSE 0]
=======================================================================
