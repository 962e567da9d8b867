--------------------------- MODULE Reservoir ---------------------------
(* How a sample grows when the elements arrive in groups (types, partitions or servers), with exact probabilities.   *)
(*   slots:  every slot is drawn for itself; a group of weight w overwrites a slot with probability w / all so far   *)
(*   stream: the t-th element replaces a random element of the full reservoir with probability k / t                 *)
(*   merge:  the reservoir and a sample of the next group are merged, the number taken from each side drawn without  *)
(*           replacement                                                                                              *)
(* The state holds the whole distribution of what is in the sample; the invariant says it is the one asked for.      *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Groups, MaxSize, MaxK, Kinds, Forget   \* Forget: the weight of merged groups is not added up (a bug)
VARIABLES kind, size, k, g, seen, dist, den
vars == <<kind, size, k, g, seen, dist, den>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_, _)
GcdAll(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Gcd(f[x], GcdAll(f, S \ {x}))
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
C(n, m) == IF m < 0 \/ m > n THEN 0 ELSE Fact(n) \div (Fact(m) * Fact(n - m))
Least(a, b) == IF a < b THEN a ELSE b
Elems(i) == {<<i, j>> : j \in 1..size[i]}
Before(i) == UNION {Elems(x) : x \in 1..(i - 1)}
(* weights for kind "slots"; some elements weigh nothing *)
W(e) == IF kind = "slots" THEN (e[1] + 2 * e[2]) % 4 ELSE 1
Weight(S) == Sum([e \in S |-> W(e)], S)
Subsets(S, m) == {T \in SUBSET S : Cardinality(T) = m}
(* a distribution in lowest terms *)
Low(f, d) == LET c == Gcd(GcdAll(f, DOMAIN f), d) IN <<[x \in DOMAIN f |-> f[x] \div c], d \div c>>
Becomes(f, d) == LET l == Low(f, d) IN dist' = l[1] /\ den' = l[2]

Init == /\ kind \in Kinds /\ size \in [1..Groups -> 0..MaxSize] /\ k \in 1..MaxK
        /\ g = 1 /\ seen = 0 /\ den = 1
        /\ dist = IF kind = "slots" THEN [x \in {} |-> 0] ELSE [x \in {{}} |-> 1]
Slots == /\ kind = "slots" /\ g <= Groups
         /\ LET w == Weight(Elems(g))
                new == Elems(g)
                all == DOMAIN dist \cup new IN
            IF w = 0 THEN UNCHANGED <<seen, dist, den>>
            ELSE /\ seen' = seen + w
                 /\ Becomes([e \in all |-> IF e \in new THEN W(e) * den ELSE dist[e] * seen], den * (seen + w))
         /\ g' = g + 1 /\ UNCHANGED <<kind, size, k>>
(* the stream takes a whole group in one step, element by element *)
RECURSIVE Feed(_, _, _, _)
Feed(f, d, t, todo) ==
  IF todo = {} THEN <<f, d>> ELSE
  LET e == CHOOSE e \in todo : TRUE
      old == DOMAIN f
      n == t + 1 IN
  IF t < k THEN Feed([T \in {S \cup {e} : S \in old} |-> f[T \ {e}]], d, n, todo \ {e})
  ELSE LET next == old \cup UNION {{(S \ {x}) \cup {e} : x \in S} : S \in old}
           p == [T \in next |-> IF e \notin T THEN f[T] * (n - k) * k
                                ELSE LET from == {S \in old : Cardinality(S \ T) = 1 /\ T \ S = {e}} IN k * Sum([S \in from |-> f[S]], from)]
           l == Low(p, d * n * k) IN
       Feed(l[1], l[2], n, todo \ {e})
Stream == /\ kind = "stream" /\ g <= Groups
          /\ LET r == Feed(dist, den, seen, Elems(g)) IN dist' = r[1] /\ den' = r[2]
          /\ seen' = seen + size[g] /\ g' = g + 1 /\ UNCHANGED <<kind, size, k>>
Merge == /\ kind = "merge" /\ g <= Groups
         /\ LET n == size[g]
                here == UNION DOMAIN dist
                m == Least(k, seen + n)
                next == Subsets(here \cup Elems(g), m)
                (* probability that a of m come from the reservoir, times C(seen + n, m) *)
                left(a) == C(seen, a) * C(n, m - a)
                lo == {S \in DOMAIN dist : dist[S] > 0}
                ways(T) == LET A == T \cap here
                               B == T \ here
                               a == Cardinality(A)
                               from == {S \in lo : A \subseteq S} IN
                           IF left(a) = 0 THEN 0
                           ELSE (left(a) * Sum([S \in from |-> dist[S] * (Fact(m) \div C(Cardinality(S), a))], from)) * (Fact(n) \div C(n, m - a)) IN
            IF n = 0 THEN UNCHANGED <<dist, den>>
            ELSE Becomes([T \in next |-> ways(T)], den * C(seen + n, m) * Fact(m) * Fact(n))
         /\ seen' = (IF Forget /\ seen + size[g] > k THEN seen ELSE seen + size[g])
         /\ g' = g + 1 /\ UNCHANGED <<kind, size, k>>
Done == g = Groups + 1 /\ UNCHANGED vars
Next == Slots \/ Stream \/ Merge \/ Done
Spec == Init /\ [][Next]_vars

Total == Sum(dist, DOMAIN dist)
Whole == (kind # "slots" \/ seen > 0) => Total = den
(* every slot holds an element with probability weight / weight of all; every subset of the right size is as likely *)
Right == IF kind = "slots" THEN \A e \in DOMAIN dist : dist[e] * seen = W(e) * den
         ELSE LET N == Cardinality(Before(g))
                  m == Least(k, N) IN
              /\ DOMAIN dist = Subsets(Before(g), m)
              /\ \A T \in DOMAIN dist : dist[T] * C(N, m) = den
Emit == (g = Groups + 1) => PrintT(<<"BEH", ToJson([kind |-> kind, size |-> size, k |-> k])>>)
=======================================================================
