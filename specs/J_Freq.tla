---------------------------- MODULE J_Freq ----------------------------
(* How often things were drawn in many draws, against their share.  A draw count may be off by a number of standard  *)
(* deviations no honest generator ever shows.  rows: independent repetitions, slots: dependent draws in each.        *)
EXTENDS Answers
VARIABLE i
RECURSIVE WSum(_, _)
WSum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + WSum(f, S \ {x})
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
(* got draws of something with share w of all, out of rows * slots draws; 7 standard deviations *)
Fair(got, w, all, rows, slots) ==
  LET want == ((rows * w) \div all) * slots + (((rows * w) % all) * slots) \div all
      spread == (((rows * w) \div all) * (all - w)) \div all + 1
      off == Abs(got - want) IN
  IF w = 0 THEN got = 0 ELSE IF w = all THEN got = rows * slots ELSE
  off <= 4 \/ (off < 40000 /\ Sq(off) <= 49 * slots * slots * (spread + 4))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Common(_, _)
Common(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Gcd(f[x], Common(f, S \ {x}))
(* shares: key -> weight *)
Shares(weight, got, rows, slots, name) ==
  LET keys == DOMAIN weight
      f == LET c == Common(weight, keys) IN [x \in keys |-> weight[x] \div c]
      all == WSum(f, keys)
      n(x) == LET m == {j \in 1..Len(got) : got[j][1] = x} IN IF m = {} THEN 0 ELSE got[CHOOSE j \in m : TRUE][2] IN
  Clause(name \o "-foreign", \A j \in 1..Len(got) : got[j][1] \in keys) \cup
  Clause(name, \A x \in keys : Fair(n(x), f[x], all, rows, slots))
(* --- neighbours: keys <<dst, type>>; weights, or how many edges --- *)
(* how many distinct neighbours come from each of two servers, where the neighbours tell the server *)
PerServer(c, q, a) ==
  LET S == 1..Len(c.servers)
      el(s) == Eligible([k \in 1..Len(c.servers[s]) |-> c.parts[c.servers[s][k] + 1]], q.nodes[1], ToSet(q.etypes), At(q, 1))
      keys(s) == {<<el(s)[j].dst, el(s)[j].type>> : j \in 1..Len(el(s))}
      in(s) == {j \in 1..Len(a.got) : a.got[j][1] \in keys(s)}
      n(s) == WSum([j \in in(s) |-> a.got[j][2]], in(s))
      some == {s \in S : Len(el(s)) > 0} IN
  IF Cardinality(some) # 2 \/ \E s, t \in some : s # t /\ keys(s) \cap keys(t) # {} THEN {} ELSE
  Shares([s \in some |-> Len(el(s))], SetToSeq({<<s, n(s)>> : s \in some}), a.rows, q.count, "distinct-per-server")
Near(c, p, q, a) ==
  LET el == Eligible(p, q.nodes[1], ToSet(q.etypes), At(q, 1))
      keys == {<<el[j].dst, el[j].type>> : j \in 1..Len(el)}
      of(x) == {j \in 1..Len(el) : el[j].dst = x[1] /\ el[j].type = x[2]}
      f == [x \in keys |-> IF q.op = "wsample" THEN WSum([j \in of(x) |-> el[j].w64], of(x)) ELSE Cardinality(of(x))]
      name == IF q.op = "wsample" THEN "weighted-neighbors" ELSE IF q.wor THEN "distinct-neighbors" ELSE "uniform-neighbors" IN
  IF q.op = "usample" /\ q.wor /\ q.count >= Len(el)
  THEN Clause(name, \A j \in 1..Len(a.got) : a.got[j][1] \in keys \cup {<<-1, q.dtype_>>}) ELSE
  IF keys = {} \/ WSum(f, keys) = 0 THEN {} ELSE
  Shares(f, a.got, a.rows, q.count, name) \cup (IF q.op = "usample" /\ q.wor THEN PerServer(c, q, a) ELSE {})
(* --- all nodes or edges: keys <<element, type>> --- *)
Everywhere(p, q, a) ==
  LET pool == IF q.elem = "node" THEN NodePool(p, ToSet(q.types)) ELSE EdgePool(p, ToSet(q.types))
      keys == {<<pool[j].el, pool[j].type>> : j \in 1..Len(pool)}
      of(x) == {j \in 1..Len(pool) : pool[j].el = x[1] /\ pool[j].type = x[2]}
      edges(x) == SelectSeq(OutEdges(p, x[1][1]), LAMBDA e : e.dst = x[1][2] /\ e.type = x[2])
      heavy(x) == IF q.elem = "node" THEN WSum([j \in of(x) |-> pool[j].w64], of(x)) ELSE WSum([j \in 1..Len(edges(x)) |-> edges(x)[j].w64], 1..Len(edges(x)))
      f == [x \in keys |-> IF q.kind = "weighted" THEN heavy(x) ELSE Cardinality(of(x))]
      name == q.kind \o "-" \o q.elem \o "s" IN
  IF keys = {} \/ WSum(f, keys) = 0 THEN {} ELSE Shares(f, a.got, a.rows, q.size, name)
(* --- second order walks: where a walk goes that came to v from t; keys <<t, v, x>> --- *)
(* Weights times p.  q is the walk's q, num/den each; only asked where every edge has one of equal weight back.       *)
Onward(p, q, a) ==
  LET el(v) == Eligible(p, v, ToSet(q.etypes), At(q, 1))
      dsts(v) == {el(v)[j].dst : j \in 1..Len(el(v))}
      w(v, x) == el(v)[CHOOSE j \in 1..Len(el(v)) : el(v)[j].dst = x].w64
      bias(t, v, x) == IF x = t THEN q.pden * q.pother ELSE IF x \in dsts(t) THEN q.pnum * q.pother ELSE q.pnum * q.qden
      cond(t, v) == {j \in 1..Len(a.got) : a.got[j][1][1] = t /\ a.got[j][1][2] = v}
      rows(t, v) == WSum([j \in cond(t, v) |-> a.got[j][2]], cond(t, v))
      pairs == {<<a.got[j][1][1], a.got[j][1][2]>> : j \in 1..Len(a.got)} IN
  Clause("walk-foreign", \A j \in 1..Len(a.first) : a.first[j][1] \in dsts(q.nodes[1])) \cup
  (IF \E j \in 1..Len(a.first) : a.first[j][1] \notin dsts(q.nodes[1]) THEN {} ELSE
   Shares([x \in dsts(q.nodes[1]) |-> w(q.nodes[1], x)], a.first, a.rows, 1, "walk-first") \cup
   UNION {LET t == tv[1]
              v == tv[2]
              mine == SelectSeq(a.got, LAMBDA e : e[1][1] = t /\ e[1][2] = v) IN
          Shares([x \in dsts(v) |-> w(v, x) * bias(t, v, x)], [j \in 1..Len(mine) |-> <<mine[j][1][3], mine[j][2]>>], rows(t, v), 1, "walk-onward")
          : tv \in pairs})
Freq(c, q, a) ==
  LET p == P(c) IN
  CASE q.op \in {"wsample", "usample"} -> Near(c, p, q, a)
    [] q.op = "gfreq" -> Everywhere(p, q, a)
    [] q.op = "walk" -> Onward(p, q, a)
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, LET c == Runs[i + 1] IN UNION {Freq(c, c.ops[k], c.ans[k]) : k \in 1..Len(c.ops)})
        /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=======================================================================
