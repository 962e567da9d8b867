----------------------------- MODULE Vose -----------------------------
(* Building an alias table: every row keeps a share of its own element and gives the rest to one other element.  *)
(* Weights are integers; a row's capacity is the total weight, an element's mass its weight times the row count.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Weights
VARIABLES w, left, prob, other, small, large
vars == <<w, left, prob, other, small, large>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
N == Len(w)
T == Sum(w)
Vectors == {v \in UNION {[1..n -> Weights] : n \in 1..MaxLen} : Sum(v) > 0}
Init == /\ w \in Vectors
        /\ left = [i \in 1..Len(w) |-> w[i] * Len(w)]
        /\ prob = [i \in 1..Len(w) |-> -1] /\ other = [i \in 1..Len(w) |-> 0]
        /\ small = {i \in 1..Len(w) : w[i] * Len(w) < Sum(w)} /\ large = {i \in 1..Len(w) : w[i] * Len(w) >= Sum(w)}
        /\ PrintT(<<"BEH", ToJson([w |-> w])>>)
(* in any order of picking *)
Pair(s, l) == /\ s \in small /\ l \in large
              /\ prob' = [prob EXCEPT ![s] = left[s]] /\ other' = [other EXCEPT ![s] = l]
              /\ left' = [left EXCEPT ![l] = @ + left[s] - T]
              /\ LET rest == left[l] + left[s] - T IN
                 /\ small' = (small \ {s}) \cup (IF rest < T THEN {l} ELSE {})
                 /\ large' = IF rest < T THEN large \ {l} ELSE large
              /\ UNCHANGED w
Rest == /\ small = {} \/ large = {}
        /\ small \cup large # {}
        /\ prob' = [i \in 1..N |-> IF i \in small \cup large THEN T ELSE prob[i]]
        /\ small' = {} /\ large' = {} /\ UNCHANGED <<w, left, other>>
Next == Rest \/ \E s \in small, l \in large : Pair(s, l)
Spec == Init /\ [][Next]_vars
Ready == small = {} /\ large = {}
Mass(i) == prob[i] + Sum([j \in 1..N |-> IF other[j] = i THEN T - prob[j] ELSE 0])
ExactInv == Ready => \A i \in 1..N : Mass(i) = w[i] * N
RangeInv == Ready => \A i \in 1..N : prob[i] \in 0..T
=======================================================================
