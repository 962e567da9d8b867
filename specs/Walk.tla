------------------------------ MODULE Walk ------------------------------
(* A node2vec walk on a directed graph, as the engine makes it: the candidates for the next node are the neighbours *)
(* of the current one, and the node before it if that one has an edge to the current node.                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Nodes, Steps
VARIABLES edges, path, stopped
vars == <<edges, path, stopped>>
Cur == path[Len(path)]
Out(v) == {w \in Nodes : <<v, w>> \in edges}
Back == IF Len(path) > 1 /\ <<path[Len(path) - 1], Cur>> \in edges THEN {path[Len(path) - 1]} ELSE {}
Candidates == Out(Cur) \cup Back
Init == edges \in SUBSET (Nodes \X Nodes) /\ path \in {<<v>> : v \in Nodes} /\ stopped = FALSE
Step == ~stopped /\ Len(path) <= Steps /\ Candidates # {} /\ \E v \in Candidates : path' = Append(path, v) /\ UNCHANGED <<edges, stopped>>
Stop == ~stopped /\ Len(path) <= Steps /\ Candidates = {} /\ stopped' = TRUE /\ UNCHANGED <<edges, path>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* only a start node without edges ends a walk early *)
GoesOn == stopped => Len(path) = 1 /\ Out(path[1]) = {}
FollowsEdges == \A k \in 2..Len(path) : <<path[k - 1], path[k]>> \in edges \/ (k > 2 /\ path[k] = path[k - 2] /\ <<path[k], path[k - 1]>> \in edges)
Ends == <>(stopped \/ Len(path) = Steps + 1)
(* the graphs to replay on the engine *)
Emit == (Len(path) = 1 /\ path[1] = 0 /\ ~stopped) => PrintT(<<"BEH", ToJson([edges |-> edges])>>)
=========================================================================
