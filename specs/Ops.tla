------------------------------- MODULE Ops -------------------------------
(* Operators on top of the engine: the n-hop subgraph is grown frontier by frontier, skip-grams walk over a path with  *)
(* two windows.  Checked against their definitions: nodes reachable within the hops, edges leaving nodes that are less  *)
(* than that many hops away, all pairs of positions inside the windows.                                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Json, TLC
CONSTANTS N, MaxHops, MaxLen, MaxWin,
          OneWindow   \* the left window is used on both sides (as the code once did)
VARIABLES task, edges, src, hops, level, frontier, seen, kept, len, left, right, j, pairs
sub == <<edges, src, hops>>
gram == <<len, left, right>>
vars == <<task, sub, level, frontier, seen, kept, gram, j, pairs>>
Nodes == 0..(N - 1)
Out(S) == {e[2] : e \in {x \in edges : x[1] \in S}}
RECURSIVE Within(_, _)
Within(S, h) == IF h = 0 THEN S ELSE Within(S \cup Out(S), h - 1)
Init == \/ /\ task = "sub" /\ edges \in SUBSET (Nodes \X Nodes) /\ src \in (SUBSET Nodes \ {{}}) /\ hops \in 1..MaxHops
           /\ level = 1 /\ frontier = src /\ seen = src /\ kept = {} /\ len = 0 /\ left = 0 /\ right = 0 /\ j = 0 /\ pairs = {}
        \/ /\ task = "gram" /\ edges = {} /\ src = {} /\ hops = 0 /\ level = 0 /\ frontier = {} /\ seen = {} /\ kept = {}
           /\ len \in 1..MaxLen /\ left \in 0..MaxWin /\ right \in 0..MaxWin /\ j = 0 /\ pairs = {}
Grow == /\ task = "sub" /\ level < hops /\ level' = level + 1 /\ frontier' = Out(frontier) /\ seen' = seen \cup Out(frontier)
        /\ UNCHANGED <<task, sub, kept, gram, j, pairs>>
Keep == /\ task = "sub" /\ level = hops /\ level' = level + 1 /\ kept' = {e \in edges : e[1] \in seen}
        /\ seen' = seen \cup {e[2] : e \in kept'} /\ UNCHANGED <<task, sub, frontier, gram, j, pairs>>
Slide == /\ task = "gram" /\ j < len /\ j' = j + 1
         /\ pairs' = pairs \cup {<<j, k>> : k \in (Max({0, j - left})..Min({len - 1, j + (IF OneWindow THEN left ELSE right)})) \ {j}}
         /\ UNCHANGED <<task, sub, level, frontier, seen, kept, gram>>
Next == Grow \/ Keep \/ Slide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ready == IF task = "sub" THEN level > hops ELSE j = len
Reached == (Ready /\ task = "sub") => seen = Within(src, hops)
Edges == (Ready /\ task = "sub") => kept = {e \in edges : e[1] \in Within(src, hops - 1)}
Pairs == (Ready /\ task = "gram") => pairs = {p \in (0..(len - 1)) \X (0..(len - 1)) : p[1] # p[2] /\ p[2] >= p[1] - left /\ p[2] <= p[1] + right}
(* the number of pairs the operator reserves room for *)
Size == FoldSet(LAMBDA i, a : a + (i - Max({0, i - left})) + (Min({len - 1, i + right}) - i), 0, 0..(len - 1))
Room == (Ready /\ task = "gram") => Size = Cardinality(pairs)
Ends == <>Ready
Emit == Ready => PrintT(<<"BEH", ToJson([task |-> task, edges |-> edges, src |-> src, hops |-> hops, len |-> len, left |-> left, right |-> right])>>)
============================================================================
