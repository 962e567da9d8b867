---------------------------- MODULE Answers ----------------------------
(* Every answer of an engine query against what the query means on the stored graph. *)
EXTENDS Judge, Graph
P(c) == [k \in 1..Len(c.load) |-> c.parts[c.load[k] + 1]]
(* the time given for the k-th element of a query *)
At(q, k) == IF q.ts = <<>> THEN <<>> ELSE <<q.ts[k]>>
RECURSIVE Seg(_, _)
(* where the answers for the k-th node begin *)
Seg(counts, k) == IF k = 1 THEN 0 ELSE counts[k - 1] + Seg(counts, k - 1)

Types(p, q, a) == Clause("node-types", Len(a.types) = Len(q.nodes) /\ \A k \in 1..Len(q.nodes) : a.types[k] = TypeOf(p, q.nodes[k], q.default))
Counts(p, q, a) ==
  Clause("neighbor-count", Len(a.counts) = Len(q.nodes) /\
         \A k \in 1..Len(q.nodes) : a.counts[k] = Len(Eligible(p, q.nodes[k], ToSet(q.etypes), At(q, k))))
Shown(x, rts, temporal) == <<x.dst, x.type, x.w64, IF ~rts THEN 0 ELSE IF temporal THEN x.created ELSE -1>>
Neighbors(p, c, q, a) ==
  LET n == Len(q.nodes)
      total == Len(a.ids) IN
  Clause("neighbor-shape", Len(a.counts) = n /\ Len(a.w) = total /\ Len(a.types) = total /\ (q.rts => Len(a.created) = total)
                           /\ \A k \in 1..n : a.counts[k] >= 0 /\ (IF n = 0 THEN 0 ELSE Seg(a.counts, n + 1)) = total) \cup
  (IF Len(a.counts) # n \/ Len(a.w) # total \/ Len(a.types) # total \/ (q.rts /\ Len(a.created) # total) \/ (IF n = 0 THEN 0 ELSE Seg(a.counts, n + 1)) # total THEN {} ELSE
   UNION {LET el == Eligible(p, q.nodes[k], ToSet(q.etypes), At(q, k))
              from == Seg(a.counts, k)
              got == [j \in 1..a.counts[k] |-> <<a.ids[from + j], a.types[from + j], a.w[from + j], IF q.rts THEN a.created[from + j] ELSE 0>>]
              want == [j \in 1..Len(el) |-> Shown(el[j], q.rts, c.temporal)] IN
          Clause("neighbor-list", Len(got) = Len(want)) \cup
          (IF Len(got) = Len(want) /\ BagOf(got) # BagOf(want)
           THEN IF BagOf([j \in 1..Len(got) |-> got[j][1]]) # BagOf([j \in 1..Len(want) |-> want[j][1]]) THEN {"neighbor-ids"}
                ELSE IF BagOf([j \in 1..Len(got) |-> <<got[j][1], got[j][2]>>]) # BagOf([j \in 1..Len(want) |-> <<want[j][1], want[j][2]>>]) THEN {"neighbor-types"}
                ELSE IF BagOf([j \in 1..Len(got) |-> got[j][3]]) # BagOf([j \in 1..Len(want) |-> want[j][3]]) THEN {"neighbor-weights"} ELSE {"neighbor-created"}
           ELSE {})
          : k \in 1..n})
NodeCountOf(p, ts) == Cardinality({e \in NodeSet(p) : e.type \in ts})
EdgeCountOf(p, ts) == Len(SelectSeq(Concat([k \in 1..Len(Entries(p)) |-> Entries(p)[k].edges]), LAMBDA x : x.type \in ts))
AllTypes == 0..40
TypeCounts(c, q, a) ==  \* these describe the whole graph, whatever part of it is loaded
  Clause("type-counts", a.nodes = NodeCountOf(c.parts, ToSet(q.ntypes)) /\ a.edges = EdgeCountOf(c.parts, ToSet(q.etypes))) \cup
  Clause("total-counts", a.total = <<NodeCountOf(c.parts, AllTypes), EdgeCountOf(c.parts, AllTypes)>>)

(* --- features --- *)
(* the feature lists a query is about: one per requested element, <<>> where there is no such element *)
NodeFeats(p, q) == [k \in 1..Len(q.nodes) |-> IF IsNode(p, q.nodes[k]) THEN NodeOf(p, q.nodes[k]).feats ELSE <<>>]
EdgeFeats(p, q) == [k \in 1..Len(q.src) |-> LET es == EdgesBetween(p, q.src[k], q.dst[k], q.etype[k], At(q, k)) IN IF es = <<>> THEN <<>> ELSE es[1].feats]
Dense(fs, q, a) ==
  LET n == Len(fs)
      want(k) == Concat([j \in 1..Len(q.feats) |-> Fit(BytesOf(Feature(fs[k], q.feats[j][1], At(q, k))), q.feats[j][2] * a.isize)]) IN
  Clause("feature-shape", a.shape = <<n, FoldLeft(LAMBDA x, y : x + y, 0, [j \in 1..Len(q.feats) |-> q.feats[j][2]])>>) \cup
  Clause("feature-values", Len(a.bytes) = n /\ \A k \in 1..n : a.bytes[k] = want(k))
Strings(fs, q, a) ==
  LET n == Len(fs)
      m == Len(q.feats)
      val(k, j) == BytesOf(Feature(fs[k], q.feats[j], At(q, k))) IN
  Clause("string-lengths", a.dims = [k \in 1..n |-> [j \in 1..m |-> Len(val(k, j))]]) \cup
  Clause("string-values", a.bytes = Concat([x \in 1..(n * m) |-> val(((x - 1) \div m) + 1, ((x - 1) % m) + 1)]))
Sparse(fs, q, a) ==
  LET n == Len(fs)
      m == Len(q.feats)
      val(k, j) == Feature(fs[k], q.feats[j], At(q, k))
      has(k, j) == val(k, j).k = "sparse"
      rows(j) == Concat([k \in 1..n |-> IF has(k, j) THEN [x \in 1..Len(val(k, j).coords) |-> <<ToString(k - 1)>> \o val(k, j).coords[x]] ELSE <<>>])
      vals(j) == Concat([k \in 1..n |-> IF has(k, j) THEN Concat(val(k, j).vals) ELSE <<>>])
      dim(j) == IF \E k \in 1..n : has(k, j) THEN val(CHOOSE k \in 1..n : has(k, j), j).dim ELSE 0 IN
  IF Len(a.rows) # m \/ Len(a.vals) # m \/ Len(a.dims) # m THEN {"sparse-shape"} ELSE
  Clause("sparse-coordinates", \A j \in 1..m : a.rows[j] = rows(j)) \cup
  Clause("sparse-values", \A j \in 1..m : a.vals[j] = vals(j)) \cup
  Clause("sparse-dimensions", \A j \in 1..m : a.dims[j] = dim(j))

(* --- neighbour selection: rows of exactly count entries ------------------------------------------------------- *)
(* Default entries are -1 as node, the default type, the default weight and -1 as time. *)
Row(q, a, k, rts) == [j \in 1..q.count |-> <<a.ids[k][j], a.types[k][j], IF a.w = <<>> THEN 0 ELSE a.w[k][j], IF rts THEN a.created[k][j] ELSE 0>>]
DefaultEntry(q, a, rts) == <<-1, q.dtype_, IF a.w = <<>> THEN 0 ELSE q.dw64, IF rts THEN -1 ELSE 0>>
Entry(x, a, rts) == <<x.dst, x.type, IF a.w = <<>> THEN 0 ELSE x.w64, IF rts THEN x.created ELSE 0>>
Shaped(q, a) ==
  LET n == Len(q.nodes) IN
  /\ a.shape = <<n, q.count>> /\ Len(a.ids) = n /\ Len(a.types) = n
  /\ \A k \in 1..n : Len(a.ids[k]) = q.count /\ Len(a.types[k]) = q.count
  /\ (a.w # <<>> => \A k \in 1..n : Len(a.w[k]) = q.count)
  /\ (q.rts => Len(a.created) = n /\ \A k \in 1..n : Len(a.created[k]) = q.count)
El(p, q, k) == Eligible(p, q.nodes[k], ToSet(q.etypes), At(q, k))
(* the latest created edges among those alive; among edges created at the same time any choice will do *)
LastN(p, q, a) ==
  IF ~Shaped(q, a) THEN {"lastn-shape"} ELSE
  UNION {LET el == El(p, q, k)
             row == Row(q, a, k, q.rts)
             full == [j \in 1..Len(el) |-> Entry(el[j], a, q.rts)]
             want == IF Len(el) < q.count THEN Len(el) ELSE q.count
             got == SelectSeq(row, LAMBDA e : e # DefaultEntry(q, a, q.rts))
             (* created times of the chosen edges, as a bag: the want largest *)
             sorted == SortSeq([j \in 1..Len(el) |-> el[j].created], LAMBDA x, y : x > y)
             top == SubSeq(sorted, 1, want)
             cands(e) == {el[j].created : j \in {j \in 1..Len(el) : full[j] = e}} IN
         Clause("lastn-eligible", \A j \in 1..q.count : row[j] = DefaultEntry(q, a, q.rts) \/ row[j] \in ToSet(full)) \cup
         Clause("lastn-count", Len(got) = want) \cup
         Clause("lastn-once", Within(BagOf(got), BagOf(full))) \cup
         (* without returned times the choice is judged through a matching of entries to edges *)
         Clause("lastn-latest", Len(got) # want \/ ~Within(BagOf(got), BagOf(full)) \/
            (IF q.rts THEN BagOf([j \in 1..Len(got) |-> got[j][4]]) = BagOf(top)
             ELSE \A j \in 1..Len(got) : want = 0 \/ \E t \in cands(got[j]) : t >= top[want])) \cup
         Clause("lastn-missed", Len(got) # want \/ q.rts \/ \A x \in 1..Len(el) :
            el[x].created > (IF want = 0 THEN 10000 ELSE top[want]) => full[x] \in ToSet(got))
         : k \in 1..Len(q.nodes)}

(* sampled neighbours: only eligible ones, the right number of times *)
Sampled(p, q, a) ==
  IF ~Shaped(q, a) THEN {"sample-shape"} ELSE
  UNION {LET el == El(p, q, k)
             row == Row(q, a, k, q.rts)
             full == [j \in 1..Len(el) |-> Entry(el[j], a, q.rts)]
             heavy == {full[j] : j \in {j \in 1..Len(el) : el[j].w64 > 0}}
             def == DefaultEntry(q, a, q.rts)
             ndef == Cardinality({j \in 1..q.count : row[j] = def}) IN
         IF q.op = "wsample"
         THEN IF heavy = {} THEN Clause("sample-defaults", \A j \in 1..q.count : row[j] = def)
              ELSE Clause("sample-eligible", \A j \in 1..q.count : row[j] \in ToSet(full)) \cup
                   Clause("sample-zero-weight", \A j \in 1..q.count : row[j] \in ToSet(full) => row[j] \in heavy)
         ELSE IF ~q.wor
         THEN IF el = <<>> THEN Clause("sample-defaults", \A j \in 1..q.count : row[j] = def)
              ELSE Clause("sample-eligible", \A j \in 1..q.count : row[j] \in ToSet(full))
         ELSE LET got == SelectSeq(row, LAMBDA e : e # def) IN
              Clause("sample-eligible", \A j \in 1..Len(got) : got[j] \in ToSet(full)) \cup
              Clause("sample-repeated", Within(BagOf(got), BagOf(full))) \cup
              Clause("sample-number", Len(got) = IF Len(el) < q.count THEN Len(el) ELSE q.count)
         : k \in 1..Len(q.nodes)}

(* --- walks ---------------------------------------------------------------------------------------------------- *)
(* every step follows an eligible edge or returns to the node before (node2vec walks may always go back the way   *)
(* they came); the default node (-1) from where there is no way on, and only from there                              *)
Walk(p, q, a) ==
  IF a.shape # <<Len(q.nodes), q.len + 1>> THEN {"walk-shape"} ELSE
  UNION {LET w == a.ids[k]
             out(v) == Eligible(p, v, ToSet(q.etypes), At(q, k))
             all(v) == {out(v)[j].dst : j \in 1..Len(out(v))}
             pos(v) == {out(v)[j].dst : j \in {j \in 1..Len(out(v)) : out(v)[j].w64 > 0}}
             weightless(u, v) == \E j \in 1..Len(out(u)) : out(u)[j].dst = v /\ out(u)[j].w64 = 0
             (* a node whose eligible edges all weigh nothing leaves the choice open; so does one with edges back only, reached over an edge that weighs nothing *)
             open(j) == pos(w[j]) = {} \/ (j > 1 /\ w[j - 1] # -1 /\ pos(w[j]) \subseteq {w[j - 1]} /\ weightless(w[j - 1], w[j]))
             next(j) == IF open(j) THEN all(w[j]) ELSE pos(w[j]) IN
         Clause("walk-start", w[1] = q.nodes[k]) \cup
         Clause("walk-step", \A j \in 1..q.len : w[j + 1] # -1 => w[j] # -1 /\ (w[j + 1] \in next(j) \/ (j > 1 /\ w[j + 1] = w[j - 1]))) \cup
         Clause("walk-stopped-early", \A j \in 1..q.len : (w[j + 1] = -1 /\ w[j] # -1) => pos(w[j]) = {} /\ j = 1)
         : k \in 1..Len(q.nodes)}

(* --- personalized page rank ------------------------------------------------------------------------------------- *)
(* Scores in millionths.  They are an approximation of the page rank of the start node exactly if what the nodes     *)
(* still owe, r = teleport + share of the scores of their predecessors - score, is never negative and below         *)
(* alpha*eps*degree.  a.full are all scores found, a.ids/a.w what the query with a limit returned.                   *)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
PPR(p, q, a) ==
  IF a.shape # <<Len(q.nodes), q.count>> THEN {"ppr-shape"} ELSE
  UNION {LET full == a.full[k]
             found == {full[j][1] : j \in 1..Len(full)}
             score(v) == full[CHOOSE j \in 1..Len(full) : full[j][1] = v][2]
             out(v) == Eligible(p, v, ToSet(q.etypes), At(q, k))
             deg(v) == Len(out(v))
             dsts(v) == [j \in 1..deg(v) |-> out(v)[j].dst]
             mult(u, v) == Cardinality({j \in 1..deg(u) : out(u)[j].dst = v})
             near == found \cup {q.nodes[k]} \cup UNION {ToSet(dsts(u)) : u \in found}
             share(v) == LET from == {u \in found : mult(u, v) > 0} IN
                         SumOf([u \in from |-> ((((1000 - q.alphaMilli) * (score(u) \div 10)) \div 100) * mult(u, v)) \div deg(u)], from)
             owes(v) == (IF v = q.nodes[k] THEN 1000 * q.alphaMilli ELSE 0) + share(v) - (IF v \in found THEN score(v) ELSE 0)
             tol(v) == 60 + 30 * Cardinality(found)
             ids == a.ids[k]
             ws == a.w[k]
             given == {j \in 1..q.count : ids[j] # -1}
         IN
         Clause("ppr-nodes", \A v \in found : v >= 0) \cup
         Clause("ppr-duplicate", Cardinality(found) = Len(full) /\ \A i, j \in given : i # j => ids[i] # ids[j]) \cup
         Clause("ppr-start", q.nodes[k] \in found) \cup
         (IF ~(\A v \in found : v >= 0) THEN {} ELSE
          Clause("ppr-overcounted", \A v \in near : owes(v) >= -tol(v)) \cup
          Clause("ppr-unfinished", \A v \in near : owes(v) <= ((q.alphaMilli * q.epsMicro) \div 1000) * deg(v) + tol(v))) \cup
         Clause("ppr-count", Cardinality(given) = (IF q.count < Cardinality(found) THEN q.count ELSE Cardinality(found))) \cup
         Clause("ppr-padding", \A j \in (1..q.count) \ given : ws[j] = q.dmicro) \cup
         Clause("ppr-best", q.loose \/ ((\A j \in given : ids[j] \in found /\ ws[j] - score(ids[j]) \in -2..2) /\
                            (\A v \in found \ {ids[j] : j \in given} : \A j \in given : score(v) <= ws[j] + 2)))
         : k \in 1..Len(q.nodes)}

(* --- samples of all nodes or edges -------------------------------------------------------------------------------- *)
(* what can be drawn: [el, type, w64] per node of the loaded partitions, or per connection of a partition *)
NodePool(p, types) == LET es == SelectSeq(Entries(p), LAMBDA e : e.type \in types) IN [k \in 1..Len(es) |-> [el |-> <<es[k].id>>, type |-> es[k].type, w64 |-> es[k].w64]]
EdgePool(p, types) ==
  LET in(k) == UNION {{<<p[k][j].id, p[k][j].edges[x]>> : x \in {x \in 1..Len(p[k][j].edges) : p[k][j].edges[x].type \in types}} : j \in 1..Len(p[k])}
      conns(k) == {[el |-> <<e[1], e[2].dst>>, type |-> e[2].type] : e \in in(k)}
      heavy(k, z) == \E e \in in(k) : e[1] = z.el[1] /\ e[2].dst = z.el[2] /\ e[2].type = z.type /\ e[2].w64 > 0 IN
  Concat([k \in 1..Len(p) |-> SetToSeq({[el |-> z.el, type |-> z.type, w64 |-> IF heavy(k, z) THEN 1 ELSE 0] : z \in conns(k)})])
Pool(p, q) == IF q.elem = "node" THEN NodePool(p, ToSet(q.types)) ELSE EdgePool(p, ToSet(q.types))
Drawn(pool, cl, d) ==
  LET got == [k \in 1..Len(d.els) |-> [el |-> d.els[k], type |-> d.types[k]]]
      here == {[el |-> pool[k].el, type |-> pool[k].type] : k \in 1..Len(pool)}
      heavy == {[el |-> pool[k].el, type |-> pool[k].type] : k \in {k \in 1..Len(pool) : pool[k].w64 > 0}}
      (* connections stored in several partitions count once in each *)
      pairs == IF cl.kind = "withoutreplacement" THEN BagOf([k \in 1..Len(pool) |-> [el |-> pool[k].el, type |-> pool[k].type]]) ELSE <<>> IN
  Clause("gsample-size", Len(d.els) = cl.size /\ Len(d.types) = cl.size) \cup
  Clause("gsample-stored", ToSet(got) \subseteq here) \cup
  Clause("gsample-zero-weight", cl.kind = "weighted" => ToSet(got) \cap here \subseteq heavy) \cup
  Clause("gsample-repeated", cl.kind = "withoutreplacement" => \A x \in ToSet(got) \cap here : Cardinality({k \in 1..Len(got) : got[k] = x}) <= pairs[x])
GSample(p, q, a) == UNION {Drawn(Pool(p, q), q.calls[k], a[k]) : k \in 1..Len(q.calls)}

Answer(c, q, a) ==
  LET p == P(c) IN
    CASE q.op = "types" -> Types(p, q, a)
      [] q.op = "counts" -> Counts(p, q, a)
      [] q.op = "nbrs" -> Neighbors(p, c, q, a)
      [] q.op = "tcounts" -> TypeCounts(c, q, a)
      [] q.op = "nfeat" -> Dense(NodeFeats(p, q), q, a)
      [] q.op = "efeat" -> Dense(EdgeFeats(p, q), q, a)
      [] q.op = "nsparse" -> Sparse(NodeFeats(p, q), q, a)
      [] q.op = "esparse" -> Sparse(EdgeFeats(p, q), q, a)
      [] q.op = "nstring" -> Strings(NodeFeats(p, q), q, a)
      [] q.op = "estring" -> Strings(EdgeFeats(p, q), q, a)
      [] q.op = "lastn" -> LastN(p, q, a)
      [] q.op \in {"wsample", "usample"} -> Sampled(p, q, a)
      [] q.op = "walk" -> Walk(p, q, a)
      [] q.op = "ppr" -> PPR(p, q, a)
      [] q.op = "gsample" -> GSample(p, q, a)
      [] q.op = "gmany" -> UNION {GSample(p, q.ops[k], a[k]) : k \in 1..Len(q.ops)}
Clauses(c) == UNION {Answer(c, c.ops[k], c.ans[k]) : k \in 1..Len(c.ops)}
=======================================================================
