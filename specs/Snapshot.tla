----------------------------- MODULE Snapshot -----------------------------
(* Finding the edges of one type group that are alive at a time: the group is scanned as a sequence of maximal      *)
(* runs of live edges, in whatever order the edges are stored.  Each run contributes its length, the weight between *)
(* its ends (weights are stored accumulated) and its edges to the answer.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS MaxEdges, MaxTime
VARIABLES edges, t, pos, runs, count, weight, done
vars == <<edges, t, pos, runs, count, weight, done>>
Life == {x \in [created : 0..(MaxTime - 1), removed : {-1} \cup 1..MaxTime] : x.removed = -1 \/ x.removed > x.created}
Init == /\ edges \in UNION {[1..n -> Life] : n \in 1..MaxEdges} /\ t \in 0..MaxTime
        /\ pos = 1 /\ runs = <<>> /\ count = 0 /\ weight = 0 /\ done = FALSE
Alive(k) == edges[k].created <= t /\ (edges[k].removed = -1 \/ t < edges[k].removed)
W(k) == k  \* weight of the k-th edge
RECURSIVE Acc(_)
Acc(k) == IF k = 0 THEN 0 ELSE W(k) + Acc(k - 1)
Start == LET s == {k \in pos..Len(edges) : Alive(k)} IN IF s = {} THEN Len(edges) + 1 ELSE CHOOSE k \in s : \A m \in s : k <= m
EndOf(from) == LET s == {k \in from..Len(edges) : ~Alive(k)} IN IF s = {} THEN Len(edges) + 1 ELSE CHOOSE k \in s : \A m \in s : k <= m
Run ==
  /\ ~done /\ Start <= Len(edges)
  /\ LET a == Start
         b == EndOf(a) IN
     /\ runs' = Append(runs, <<a, b>>) /\ count' = count + (b - a) /\ weight' = weight + Acc(b - 1) - Acc(a - 1) /\ pos' = b
  /\ UNCHANGED <<edges, t, done>>
Stop == ~done /\ Start > Len(edges) /\ done' = TRUE /\ PrintT(<<"BEH", ToJson([edges |-> edges, t |-> t])>>) /\ UNCHANGED <<edges, t, pos, runs, count, weight>>
Next == Run \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Living == {k \in 1..Len(edges) : Alive(k)}
Covered == UNION {r[1]..(r[2] - 1) : r \in ToSet(runs)}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN W(k) + Sum(S \ {k})
OnlyLiving == Covered \subseteq Living
Exact == done => Covered = Living /\ count = Cardinality(Living) /\ weight = Sum(Living)
Disjoint == \A j \in 1..(Len(runs) - 1) : runs[j][2] < runs[j + 1][1]
Terminates == <>done
=======================================================================
