------------------------------- MODULE Fire -------------------------------
(* Forest fire sampling: a fire starts at a random node and spreads over some of its outgoing and incoming edges;      *)
(* when it goes out before enough nodes burned another one starts anywhere.                                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS N, MaxQueue,
          EdgesOnly   \* nodes enter the sample only with an edge, two at a time (as the code once did)
VARIABLES edges, size, nodes, kept, queue, burned, todo
vars == <<edges, size, nodes, kept, queue, burned, todo>>
V == 0..(N - 1)
Init == /\ edges \in SUBSET (V \X V) /\ size \in 1..N
        /\ nodes = {} /\ kept = {} /\ burned = {} /\ todo = {} /\ queue \in {<<v>> : v \in V}
Going == Cardinality(nodes) < size
Touching(v) == {e \in edges : e[1] = v \/ e[2] = v}
(* a node catches fire: some of its edges are going to burn *)
Burn(S) == LET v == queue[Len(queue)] IN
        /\ Going /\ todo = {} /\ queue # <<>>
        /\ queue' = SubSeq(queue, 1, Len(queue) - 1)
        /\ IF v \in burned THEN UNCHANGED <<burned, nodes, todo>>
           ELSE /\ burned' = burned \cup {v} /\ nodes' = (IF EdgesOnly THEN nodes ELSE nodes \cup {v})
                /\ S \subseteq Touching(v) /\ (S = {} => Touching(v) = {}) /\ todo' = {<<v, e>> : e \in S}
        /\ UNCHANGED <<edges, size, kept>>
Spread(x) == /\ x \in todo
             /\ IF Going /\ Len(queue) < MaxQueue
                THEN /\ kept' = kept \cup {x[2]} /\ nodes' = nodes \cup {x[2][1], x[2][2]}
                     /\ queue' = Append(queue, IF x[2][1] = x[1] THEN x[2][2] ELSE x[2][1]) /\ todo' = todo \ {x}
                ELSE todo' = {} /\ UNCHANGED <<kept, nodes, queue>>
             /\ UNCHANGED <<edges, size, burned>>
(* an edge between nodes of the sample takes no room: it may still burn when the last node was found *)
Close(x) == /\ x \in todo /\ ~Going /\ {x[2][1], x[2][2]} \subseteq nodes /\ kept' = kept \cup {x[2]} /\ todo' = todo \ {x}
            /\ UNCHANGED <<edges, size, nodes, queue, burned>>
Restart(v) == /\ Going /\ todo = {} /\ queue = <<>> /\ queue' = <<v>> /\ burned' = {} /\ UNCHANGED <<edges, size, nodes, kept, todo>>
Next == (\E S \in SUBSET edges : Burn(S)) \/ (\E x \in todo : Spread(x) \/ Close(x)) \/ (\E v \in V : Restart(v))
Fair == WF_vars(\E S \in SUBSET edges : Burn(S)) /\ WF_vars(\E x \in todo : Spread(x)) /\ \A v \in V : SF_vars(Restart(v))
Spec == Init /\ [][Next]_vars /\ Fair
Subgraph == kept \subseteq edges /\ nodes \subseteq V /\ \A e \in kept : e[1] \in nodes /\ e[2] \in nodes
NotMore == Cardinality(nodes) <= size
Done == ~Going /\ todo = {}
AsAsked == Done => Cardinality(nodes) = size
Ends == <>Done
Graphs == (nodes = {} /\ queue = <<0>> /\ burned = {} /\ size = 1) => PrintT(<<"BEH", ToJson(edges)>>)
============================================================================
