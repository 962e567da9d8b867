----------------------------- MODULE Download -----------------------------
(* Fetching a graph kept elsewhere: the metadata and every partition asked for may be on this machine ("l"), beside    *)
(* the metadata ("m") or in one of two other stores.  Files of partitions that are not here are copied, each from the  *)
(* store the partition is in, and the partition is then loaded from the copy.                                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxParts, Stores,
          LastStore,    \* copy everything through the store looked at last (as the code once did)
          MetaDecides,  \* copy nothing when the metadata is here (as the code once did)
          Kinds         \* kinds of files the code copies
VARIABLES meta, place, wanted, temporal, features, pc, next, store, list, copied, from
vars == <<meta, place, wanted, temporal, features, pc, next, store, list, copied, from>>
P == 0..(Len(place) - 1)
Here(p) == place[p + 1] = "l" \/ (place[p + 1] = "m" /\ meta = "l")
Of(p) == IF place[p + 1] = "m" THEN meta ELSE place[p + 1]
Files(p) == {"map", "nodes", "neighbors", "edges", "alias"} \cup (IF features THEN {"features"} ELSE {}) \cup (IF temporal THEN {"lifetimes"} ELSE {})
Init == /\ meta \in {"l"} \cup Stores /\ \E n \in 1..MaxParts : place \in [1..n -> {"l", "m"} \cup Stores]
        /\ wanted \in (SUBSET P \ {{}}) /\ temporal \in BOOLEAN /\ features \in BOOLEAN
        /\ pc = "meta" /\ next = 0 /\ store = meta /\ list = {} /\ copied = {} /\ from = [p \in P |-> "source"]
Meta == /\ pc = "meta"
        /\ pc' = (IF MetaDecides THEN IF meta = "l" THEN "load" ELSE "collect" ELSE IF \A p \in wanted : Here(p) /\ meta = "l" THEN "load" ELSE "collect")
        /\ UNCHANGED <<meta, place, wanted, temporal, features, next, store, list, copied, from>>
Collect == /\ pc = "collect" /\ next \in P
           /\ IF next \in wanted
              THEN /\ store' = Of(next)
                   /\ IF Here(next) THEN UNCHANGED <<list, from>>
                      ELSE list' = list \cup ({<<next, f>> : f \in Files(next) \cap Kinds}) /\ from' = [from EXCEPT ![next] = "copy"]
              ELSE UNCHANGED <<store, list, from>>
           /\ next' = next + 1 /\ UNCHANGED <<meta, place, wanted, temporal, features, pc, copied>>
Copy == /\ pc = "collect" /\ next \notin P /\ pc' = "load"
        /\ copied' = (IF LastStore THEN {x \in list : Of(x[1]) = store} ELSE list)
        /\ UNCHANGED <<meta, place, wanted, temporal, features, next, store, list, from>>
Load == /\ pc = "load" /\ pc' = "done" /\ UNCHANGED <<meta, place, wanted, temporal, features, next, store, list, copied, from>>
Next == Meta \/ Collect \/ Copy \/ Load
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* what can be opened when partition p is loaded *)
Found(p) == IF from[p] = "copy" THEN {x[2] : x \in {y \in copied : y[1] = p}} ELSE IF Here(p) THEN Files(p) ELSE {}
Complete == pc = "done" => \A p \in wanted : Found(p) = Files(p)
NothingElse == \A x \in copied : x[1] \in wanted /\ ~Here(x[1])
Ends == <>(pc = "done")
Emit == pc = "done" => PrintT(<<"BEH", ToJson([meta |-> meta, parts |-> place, wanted |-> wanted, temporal |-> temporal, features |-> features])>>)
============================================================================
