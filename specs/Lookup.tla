----------------------------- MODULE Lookup -----------------------------
(* How a partition finds the edges of a node that have one of the requested types: the node's edges are stored in *)
(* groups of ascending type, the request is an ascending list, and the two are merged with one pointer each.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANT MaxType
VARIABLES stored, asked, g, q, found, done
vars == <<stored, asked, g, q, found, done>>
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Init == /\ stored \in {Asc(S) : S \in SUBSET (0..MaxType)}
        /\ asked \in {Asc(S) : S \in SUBSET (0..MaxType)}
        /\ g = 1 /\ q = 1 /\ found = <<>> /\ done = FALSE
(* the request pointer passes the types smaller than the current group *)
SkipAsked == ~done /\ g <= Len(stored) /\ q <= Len(asked) /\ asked[q] < stored[g] /\ q' = q + 1 /\ UNCHANGED <<stored, asked, g, found, done>>
(* a group that was not asked for is passed; the request pointer stays, the next group may be the one *)
SkipGroup == ~done /\ g <= Len(stored) /\ q <= Len(asked) /\ asked[q] > stored[g] /\ g' = g + 1 /\ UNCHANGED <<stored, asked, q, found, done>>
Take == ~done /\ g <= Len(stored) /\ q <= Len(asked) /\ asked[q] = stored[g] /\ found' = Append(found, stored[g]) /\ g' = g + 1 /\ UNCHANGED <<stored, asked, q, done>>
Stop == ~done /\ (g > Len(stored) \/ q > Len(asked)) /\ done' = TRUE /\ PrintT(<<"BEH", ToJson([stored |-> stored, asked |-> asked])>>) /\ UNCHANGED <<stored, asked, g, q, found>>
Next == SkipAsked \/ SkipGroup \/ Take \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* each group asked for is found exactly once, in stored order, and nothing else is *)
Sound == \A k \in 1..Len(found) : found[k] \in ToSet(stored) \cap ToSet(asked)
Ascending == \A k \in 1..(Len(found) - 1) : found[k] < found[k + 1]
Complete == done => ToSet(found) = ToSet(stored) \cap ToSet(asked)
Terminates == <>done
=======================================================================
