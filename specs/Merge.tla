----------------------------- MODULE Merge -----------------------------
(* A query fanned out to all servers, and the client merging the replies in the order they come in.               *)
(* One node with a home server (type, features) and edges 1..NEdges, each on any server; edge k leads to node k,  *)
(* was created at time k and weighs k.  Whatever the placement and the reply order, the merged answer must be the *)
(* one a single engine holding everything would give.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS Servers, NEdges, Count
Kinds == {"types", "counts", "nbrs", "feature", "edge-feature", "lastn", "weighted", "uniform"}
VARIABLES kind, home, place, replies, arrived, acc, result
vars == <<kind, home, place, replies, arrived, acc, result>>
N == Cardinality(Servers)
Edges == 1..NEdges
On(s) == {k \in Edges : place[k] = s}
Sorted(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x < y)
Latest(S, n) == LET q == Sorted(S) IN IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Weight(S) == FoldSet(LAMBDA x, y : x + y, 0, S)
None == -1
(* what each server answers from its own partitions; servers that do not know the node say nothing about it *)
Reply(s) ==
  CASE kind = "types" -> IF s = home THEN 7 ELSE None
    [] kind = "counts" -> Cardinality(On(s))
    [] kind = "nbrs" -> Sorted(On(s))
    [] kind = "feature" -> IF s = home THEN [ts |-> 5, val |-> 9] ELSE [ts |-> None, val |-> 0]
    [] kind = "edge-feature" -> IF 1 \in On(s) THEN 9 ELSE None
    [] kind = "lastn" -> Latest(On(s), Count)
    [] kind = "weighted" -> [total |-> Weight(On(s)), row |-> IF On(s) = {} THEN [j \in 1..Count |-> None] ELSE [j \in 1..Count |-> CHOOSE k \in On(s) : TRUE]]
    [] kind = "uniform" -> [total |-> Cardinality(On(s)), row |-> Latest(On(s), Count)]
Empty ==
  CASE kind \in {"types", "edge-feature"} -> None
    [] kind = "feature" -> [ts |-> None, val |-> 0]
    [] kind = "weighted" -> [total |-> 0, row |-> [j \in 1..Count |-> None]]
    [] OTHER -> <<>>
Init == /\ kind \in Kinds /\ home \in Servers /\ place \in [Edges -> Servers]
        /\ replies = [s \in Servers |-> <<>>] /\ arrived = <<>> /\ acc = Empty /\ result = <<>>
Serve(s) == /\ replies[s] = <<>> /\ replies' = [replies EXCEPT ![s] = <<Reply(s)>>]
            /\ UNCHANGED <<kind, home, place, arrived, acc, result>>
Order == Sorted(Servers)
All(r) == [j \in 1..N |-> r[Order[j]][1]]
Flatten2(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
(* merging as replies come in, under the client's lock *)
Take(s) ==
  LET r == replies[s][1] IN
  CASE kind \in {"types", "edge-feature"} -> IF r = None THEN acc ELSE r
    [] kind = "feature" -> IF acc.ts <= r.ts THEN r ELSE acc
    [] OTHER -> acc
(* a weighted reply replaces each position of the row with probability weight/total: any position may or may not change *)
Mix(s) ==
  LET r == replies[s][1]
      t == acc.total + r.total IN
  {[total |-> t, row |-> [j \in 1..Count |-> IF j \in over THEN r.row[j] ELSE acc.row[j]]] :
      over \in IF r.total = 0 THEN {{}} ELSE IF acc.total = 0 THEN {1..Count} ELSE SUBSET (1..Count)}
(* merging once the last reply is in *)
Final(r) ==
  CASE kind = "counts" -> {FoldLeft(LAMBDA x, y : x + y, 0, All(r))}
    [] kind = "nbrs" -> {Flatten2(All(r))}
    [] kind = "lastn" -> {Latest(ToSet(Flatten2(All(r))), Count)}
    [] kind = "uniform" -> LET pool == UNION {ToSet(r[s][1].row) : s \in Servers}
                               n == Min({Count, NEdges}) IN
                           {Sorted(c) : c \in {c \in SUBSET pool : Cardinality(c) = n}}
    [] OTHER -> {<<>>}
Arrive(s) ==
  /\ replies[s] # <<>> /\ ~\E j \in 1..Len(arrived) : arrived[j] = s
  /\ arrived' = Append(arrived, s)
  /\ IF kind = "weighted" THEN acc' \in Mix(s) ELSE acc' = Take(s)
  /\ IF Len(arrived) + 1 = N
     THEN /\ \E f \in Final(replies) : result' = <<f>>
          /\ PrintT(<<"BEH", ToJson([kind |-> kind, home |-> home, place |-> place, order |-> arrived'])>>)
     ELSE result' = result
  /\ UNCHANGED <<kind, home, place, replies>>
Next == \E s \in Servers : Serve(s) \/ Arrive(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the answer of one engine holding all partitions *)
Done == Len(arrived) = N
Right == Done =>
  CASE kind = "types" -> acc = 7
    [] kind = "counts" -> result = <<NEdges>>
    [] kind = "nbrs" -> ToSet(result[1]) = Edges /\ Len(result[1]) = NEdges
    [] kind = "feature" -> acc.val = 9
    [] kind = "edge-feature" -> acc = 9
    [] kind = "lastn" -> result[1] = Latest(Edges, Count)
    [] kind = "weighted" -> acc.total = Weight(Edges) /\ \A j \in 1..Count : acc.row[j] \in Edges
    [] kind = "uniform" -> Len(result[1]) = Min({Count, NEdges}) /\ ToSet(result[1]) \subseteq Edges
NothingEarly == ~Done => result = <<>>
Finishes == <>Done
=======================================================================
