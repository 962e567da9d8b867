----------------------------- MODULE Exchange -----------------------------
(* A cluster starting graph engine servers: every worker works out from its place (host, slot) whether it starts a    *)
(* server and with which index; without a given list, workers exchange addresses through a shared folder: register,   *)
(* publish an address, wait until everybody published, read all addresses, leave.  Nobody may take its address away    *)
(* before everybody has read it.                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS MaxHosts, MaxSlots, MaxParts,
          Late     \* workers register only after publishing (the order the code once had)
VARIABLES hosts, slots, parts, given,    \* the cluster
          pc, waiting, published, list, loaded
cluster == <<hosts, slots, parts, given>>
vars == <<cluster, pc, waiting, published, list, loaded>>
Workers == 0..((hosts * slots) - 1)
Host(w) == w \div slots
Index(w) == IF w % slots = 0 THEN Host(w) ELSE -1
Up(x, y) == IF x <= 0 THEN 0 ELSE (x + y - 1) \div y
Portion(s) == [j \in 1..Up(parts - s, hosts) |-> s + ((j - 1) * hosts)]
Init == /\ hosts \in 1..MaxHosts /\ slots \in 1..MaxSlots /\ parts \in 1..MaxParts /\ given \in BOOLEAN
        /\ pc = [w \in Workers |-> IF given THEN "start" ELSE IF Late THEN "publish" ELSE "register"]
        /\ waiting = {} /\ published = {} /\ list = [w \in Workers |-> IF given THEN [s \in 1..hosts |-> s - 1] ELSE <<>>]
        /\ loaded = [s \in 0..(hosts - 1) |-> <<>>]
Go(w, to) == pc' = [pc EXCEPT ![w] = to]
Register(w) == pc[w] = "register" /\ waiting' = waiting \cup {w} /\ Go(w, IF Late THEN "read" ELSE "publish") /\ UNCHANGED <<cluster, published, list, loaded>>
Publish(w) == pc[w] = "publish" /\ published' = published \cup {w} /\ Go(w, IF Late THEN "register" ELSE "read") /\ UNCHANGED <<cluster, waiting, list, loaded>>
Read(w) == /\ pc[w] = "read" /\ published = Workers /\ Go(w, "leave")
           /\ list' = [list EXCEPT ![w] = SortSeq([j \in 1..hosts |-> j - 1], LAMBDA x, y : x < y)]
           /\ UNCHANGED <<cluster, waiting, published, loaded>>
Leave(w) == pc[w] = "leave" /\ waiting' = waiting \ {w} /\ Go(w, "withdraw") /\ UNCHANGED <<cluster, published, list, loaded>>
Withdraw(w) == pc[w] = "withdraw" /\ waiting = {} /\ published' = published \ {w} /\ Go(w, "start") /\ UNCHANGED <<cluster, waiting, list, loaded>>
Start(w) == /\ pc[w] = "start" /\ Go(w, "on")
            /\ loaded' = IF Index(w) >= 0 THEN [loaded EXCEPT ![Index(w)] = @ \o Portion(Index(w))] ELSE loaded
            /\ UNCHANGED <<cluster, waiting, published, list>>
Next == \E w \in Workers : Register(w) \/ Publish(w) \/ Read(w) \/ Leave(w) \/ Withdraw(w) \/ Start(w)
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair
Done == \A w \in Workers : pc[w] = "on"
OneServerPerHost == \A h \in 0..(hosts - 1) : Cardinality({w \in Workers : Host(w) = h /\ Index(w) >= 0}) = 1
NoGaps == {Index(w) : w \in Workers} \ {-1} = 0..(hosts - 1)
SameList == \A w \in Workers : pc[w] = "on" => list[w] = [s \in 1..hosts |-> s - 1]
AllParts == Done => \A p \in 0..(parts - 1) : FoldSet(LAMBDA s, a : a + Len(SelectSeq(loaded[s], LAMBDA z : z = p)), 0, 0..(hosts - 1)) = 1
NothingLeft == Done => published = {} /\ waiting = {}
AllStart == <>Done
Emit == Done => PrintT(<<"BEH", ToJson([hosts |-> hosts, slots |-> slots, parts |-> parts, given |-> given])>>)
============================================================================
