------------------------------ MODULE Dataset ------------------------------
(* Building a graph of papers from its raw files: nodes are split into training and test nodes, then the links are  *)
(* read one by one and stored in both directions, as training edges exactly when both ends are training nodes.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M,     \* most nodes and links
          Either,   \* broken: one training end is enough
          OneWay    \* broken: links are stored in one direction
VARIABLES n, train, links, at, edges
vars == <<n, train, links, at, edges>>
Nodes == 1..n
Init == /\ n \in 1..N /\ train \in SUBSET (1..n) /\ links \in UNION {[1..m -> Nodes \X Nodes] : m \in 0..M}
        /\ at = 1 /\ edges = {}
Kind(a, b) == IF (a \in train /\ b \in train) \/ (Either /\ (a \in train \/ b \in train)) THEN 0 ELSE 1
Read == /\ at <= Len(links) /\ at' = at + 1
        /\ LET a == links[at][1]  b == links[at][2] IN
           edges' = edges \cup {<<a, Kind(a, b), b>>} \cup (IF OneWay THEN {} ELSE {<<b, Kind(a, b), a>>})
        /\ UNCHANGED <<n, train, links>>
Next == Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
Done == at > Len(links)
(* training never sees a node it is tested on *)
NoLeak == \A e \in edges : e[2] = 0 => {e[1], e[3]} \subseteq train
BothWays == \A e \in edges : <<e[3], e[2], e[1]>> \in edges
Complete == Done => \A j \in 1..Len(links) : Cardinality({k \in {0, 1} : <<links[j][1], k, links[j][2]>> \in edges}) = 1
Exact == \A e \in edges : \E j \in 1..Len(links) : {links[j][1], links[j][2]} = {e[1], e[3]}
Maximal == \A e \in edges : {e[1], e[3]} \subseteq train => e[2] = 0
Ends == <>Done
============================================================================
