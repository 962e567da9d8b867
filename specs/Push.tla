------------------------------ MODULE Push ------------------------------
(* Approximate personalized page rank by pushing residuals, in any order of the queue.  All amounts are in units of  *)
(* 1/Unit so that the halves and quarters that occur are whole numbers; teleport probability 1/2, precision 1/4.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Nodes, Unit, MaxDeg
VARIABLES edges, start, p, r, queue
vars == <<edges, start, p, r, queue>>
Out(v) == {w \in Nodes : <<v, w>> \in edges}
Deg(v) == Cardinality(Out(v))
Bound(v) == (Unit \div 8) * Deg(v)
Init == /\ edges \in {e \in SUBSET (Nodes \X Nodes) : \A v \in Nodes : Cardinality({w \in Nodes : <<v, w>> \in e}) <= MaxDeg}
        /\ start \in Nodes /\ p = [v \in Nodes |-> 0] /\ r = [v \in Nodes |-> IF v = start THEN Unit \div 2 ELSE 0] /\ queue = {start}
Push(u) ==
  /\ u \in queue
  /\ LET share == IF Deg(u) = 0 THEN 0 ELSE r[u] \div (2 * Deg(u))
         r2 == [v \in Nodes |-> (IF v = u THEN 0 ELSE r[v]) + (IF v \in Out(u) THEN share ELSE 0)] IN
     /\ p' = [p EXCEPT ![u] = @ + r[u]]
     /\ r' = r2
     /\ queue' = (queue \ {u}) \cup {v \in Out(u) : r2[v] >= Bound(v)}
  /\ UNCHANGED <<edges, start>>
Next == \E u \in Nodes : Push(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
(* what a node still owes follows from the scores alone: this is what recorded scores are judged by *)
Owes(v) == LET from == {u \in Nodes : v \in Out(u)} IN
  (IF v = start THEN Unit \div 2 ELSE 0) + Total([u \in from |-> p[u] \div (2 * Deg(u))], from) - p[v]
Certificate == \A v \in Nodes : Owes(v) = r[v] /\ r[v] >= 0
Finished == queue = {} => \A v \in Nodes : r[v] <= Bound(v)
OnlyReachable == \A v \in Nodes : p[v] > 0 => v = start \/ \E u \in Nodes : <<u, v>> \in edges /\ p[u] > 0
Terminates == <>(queue = {})
=========================================================================
