--------------------------- MODULE J_Decode ---------------------------
(* Verdicts on decoded input: exp is the graph as declared, got the records each format's decoder produced.       *)
EXTENDS Judge
VARIABLE i
(* records of one node: the node, then its edges by type; a total order of the edges of a type is given by rank   *)
Records(n) == <<[n.rec EXCEPT !.dst = "-1"]>> \o [k \in 1..Len(n.edges) |-> n.edges[k].rec]
Before(a, b) == a.rank < b.rank
Sorted(n) == [n EXCEPT !.edges = SortSeq(n.edges, Before)]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Expected(c) == Flat([k \in 1..Len(c.exp) |-> Records(Sorted(c.exp[k]))])
(* an absent feature and one without content are the same *)
SameF(a, b) == (a.bytes = <<>> /\ b.bytes = <<>>) \/ (a.k = b.k /\ a.dtype = b.dtype /\ a.bytes = b.bytes /\ a.coords = b.coords /\ a.shape = b.shape)
SameFs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameF(a[k], b[k])
Timeless == {"None"}
(* no times at all, and a life from the beginning to the end, are the same *)
Start(x) == IF x = "None" THEN "0" ELSE x
Stop(x) == IF x = "None" THEN "-1" ELSE x
Same(a, b) == a.src = b.src /\ a.dst = b.dst /\ a.type = b.type /\ a.w = b.w /\ SameFs(a.feats, b.feats)
SameTimes(a, b) == Start(a.created) = Start(b.created) /\ Stop(a.removed) = Stop(b.removed)
View(c, v) ==
  IF v.end # "ok" THEN {v.format \o "-not-decoded"} ELSE
  LET e == Expected(c) IN
  IF Len(v.recs) # Len(e) THEN {v.format \o "-record-count"} ELSE
  Clause(v.format \o "-order", \A k \in 1..Len(e) : v.recs[k].src = e[k].src /\ v.recs[k].dst = e[k].dst) \cup
  Clause(v.format \o "-types", \A k \in 1..Len(e) : v.recs[k].type = e[k].type) \cup
  Clause(v.format \o "-weights", \A k \in 1..Len(e) : v.recs[k].w = e[k].w) \cup
  Clause(v.format \o "-features", \A k \in 1..Len(e) : SameFs(v.recs[k].feats, e[k].feats)) \cup
  Clause(v.format \o "-lifetimes", \A k \in 1..Len(e) : SameTimes(v.recs[k], e[k]))
Clauses(c) ==
  UNION {View(c, c.got[k]) : k \in 1..Len(c.got)} \cup
  Clause("formats-give-different-files", \A a, b \in 1..Len(c.got) : c.got[a].end # "ok" \/ c.got[b].end # "ok" \/ c.got[a].sums = c.got[b].sums)
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Clauses(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=======================================================================
