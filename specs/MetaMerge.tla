--------------------------- MODULE MetaMerge ---------------------------
(* Workers count what they store, partition by partition; merging their metadata in any order of files gives the  *)
(* metadata of the whole.  Rows are per-type counts; a worker only knows the types it has seen.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Workers, PartsEach, Types, MaxElems
VARIABLES rows, merged, todo
vars == <<rows, merged, todo>>
W == 0..(Workers - 1)
Parts(w) == (w * PartsEach)..(w * PartsEach + PartsEach - 1)
All == UNION {Parts(w) : w \in W}
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
NoCounts == [t \in Types |-> 0]
Init == rows = [p \in All |-> NoCounts] /\ merged = [types |-> 0, parts |-> <<>>, count |-> NoCounts] /\ todo = {}
Stored == Total([p \in All |-> Total(rows[p], Types)], All)
Add(p, t) == /\ todo = {} /\ merged.parts = <<>> /\ Stored < MaxElems
             /\ rows' = [rows EXCEPT ![p][t] = @ + 1] /\ UNCHANGED <<merged, todo>>
Seen(w) == {t \in Types : \E p \in Parts(w) : rows[p][t] > 0}
TypesOf(w) == IF Seen(w) = {} THEN 0 ELSE Max(Seen(w)) + 1
Start == todo = {} /\ merged.parts = <<>> /\ todo' = W /\ UNCHANGED <<rows, merged>>
MergeOne(w) == /\ w \in todo /\ todo' = todo \ {w}
               /\ merged' = [types |-> Max({merged.types, TypesOf(w)}),
                             parts |-> merged.parts \o SetToSortSeq(Parts(w), <),
                             count |-> [t \in Types |-> merged.count[t] + Total([p \in Parts(w) |-> rows[p][t]], Parts(w))]]
               /\ UNCHANGED rows
Next == Start \/ (\E w \in W : MergeOne(w)) \/ (\E p \in All, t \in Types : Add(p, t))
Spec == Init /\ [][Next]_vars
WholeTypes == {t \in Types : \E p \in All : rows[p][t] > 0}
MergedInv == (todo = {} /\ merged.parts # <<>>) =>
  /\ merged.types = (IF WholeTypes = {} THEN 0 ELSE Max(WholeTypes) + 1)
  /\ ToSet(merged.parts) = All /\ Len(merged.parts) = Cardinality(All)
  /\ \A t \in Types : merged.count[t] = Total([p \in All |-> rows[p][t]], All)
=======================================================================
