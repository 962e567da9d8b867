----------------------------- MODULE Quota -----------------------------
(* How a sample without replacement is split over groups (types, then the partitions of a type, or servers): the    *)
(* groups are passed in order, each is given some number of the elements still wanted, not more than it has and      *)
(* leaving not more than the groups after it have.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Types, Parts, MaxSize, MaxWant
VARIABLES size, want, t, q, left, leftT, given, taken
(* size[i][p]: elements of type i in partition p; given[i]: promised to type i; taken[i][p]: drawn *)
vars == <<size, want, t, q, left, leftT, given, taken>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Of(i) == Sum(size[i], 1..Parts)
All == Sum([i \in 1..Types |-> Of(i)], 1..Types)
Later(i) == Sum([j \in 1..Types |-> Of(j)], (i + 1)..Types)
LaterP(i, p) == Sum(size[i], (p + 1)..Parts)
Lo(l, rest) == IF l > rest THEN l - rest ELSE 0
Hi(l, n) == IF l < n THEN l ELSE n
Init == /\ size \in [1..Types -> [1..Parts -> 0..MaxSize]] /\ want \in 1..MaxWant /\ want <= All
        /\ t = 1 /\ q = 0 /\ left = want /\ leftT = 0
        /\ given = [i \in 1..Types |-> 0] /\ taken = [i \in 1..Types |-> [p \in 1..Parts |-> 0]]
        /\ PrintT(<<"BEH", ToJson([size |-> size, want |-> want])>>)
Promise == /\ t <= Types /\ q = 0
           /\ \E n \in Lo(left, Later(t))..Hi(left, Of(t)) : given' = [given EXCEPT ![t] = n] /\ left' = left - n /\ leftT' = n
           /\ q' = 1 /\ UNCHANGED <<size, want, t, taken>>
Draw == /\ t <= Types /\ q \in 1..Parts
        /\ \E n \in Lo(leftT, LaterP(t, q))..Hi(leftT, size[t][q]) : taken' = [taken EXCEPT ![t][q] = n] /\ leftT' = leftT - n
        /\ (IF q = Parts THEN q' = 0 /\ t' = t + 1 ELSE q' = q + 1 /\ t' = t) /\ UNCHANGED <<size, want, left, given>>
Next == Promise \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == t > Types
(* there is always a number to choose, nothing is written outside the result, and it is filled *)
Possible == (t <= Types /\ q = 0 => Lo(left, Later(t)) <= Hi(left, Of(t))) /\ (t <= Types /\ q > 0 => Lo(leftT, LaterP(t, q)) <= Hi(leftT, size[t][q]))
InBounds == left >= 0 /\ leftT >= 0 /\ \A i \in 1..Types : \A p \in 1..Parts : taken[i][p] <= size[i][p]
Filled == Done => left = 0 /\ Sum([i \in 1..Types |-> Sum(taken[i], 1..Parts)], 1..Types) = want
Finishes == <>Done
=======================================================================
