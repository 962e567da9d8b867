----------------------------- MODULE Shards -----------------------------
(* Splitting a dataset of n elements into batches over W workers, D data-parallel shards per worker and E epochs.   *)
(* styles:  turns   a worker has every W-th element, repeated E times; its batches go to its shards in turns        *)
(*          blocks  blocks of b*D ids go to the workers in turns, a shard takes every D-th id of a block             *)
(*          strides one worker, a shard takes every D-th row, epoch by epoch, the last batch of an epoch may be short *)
(*          draws   each shard draws its share of n*E samples in full batches                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS MaxN, MaxB, MaxW, MaxD, MaxE
VARIABLES style, n, b, W, D, E, drop, w, i, k, out
vars == <<style, n, b, W, D, E, drop, w, i, k, out>>
env == <<style, n, b, W, D, E, drop>>
Up(x, y) == IF x <= 0 THEN 0 ELSE (x + y - 1) \div y
Pad == -1
Cut(S, m) == SubSeq(S, 1, m)
(* elements of a worker, and all it has to go through *)
Mine(x) == [j \in 1..Up(n - x, W) |-> x + ((j - 1) * W)]
Rounds(s, e) == [j \in 1..(Len(s) * e) |-> s[((j - 1) % Len(s)) + 1]]
Filled(s) == s \o [j \in 1..(b - Len(s)) |-> Pad]
(* the k-th batch (from 0) of shard y of worker x; empty when there is none *)
Batch(x, y, j) ==
  CASE style = "turns" ->
         LET all == Rounds(Mine(x), E)
             at == ((j * D) + y) * b
             s == IF at < Len(all) THEN SubSeq(all, at + 1, Min({Len(all), at + b})) ELSE <<>> IN
         IF Len(s) = b THEN s ELSE IF s = <<>> \/ drop THEN <<>> ELSE Filled(s)
    [] style = "blocks" ->
         LET at == (x * b * D) + (j * W * b * D) + y
             s == [h \in 1..b |-> LET v == at + ((h - 1) * D) IN IF v < n THEN v ELSE Pad] IN
         IF at < n THEN s ELSE <<>>
    [] style = "strides" ->
         LET per == Up(n - y, D * b)
             at == (IF per = 0 THEN 0 ELSE (j % per) * b * D) + y
             m == Min({b, Up(n - at, D)}) IN
         IF per = 0 \/ j >= per * E THEN <<>> ELSE [h \in 1..m |-> at + ((h - 1) * D)]
    [] style = "draws" -> IF j < Up(n * E, b * W * D) THEN [h \in 1..b |-> 0] ELSE <<>>
(* what len() has to say before anything is read *)
Batches(x) == LET t == Len(Mine(x)) * E IN IF drop THEN t \div b ELSE Up(t, b)
Length(x, y) ==
  CASE style = "turns" -> Up(Batches(x) - y, D)
    [] style = "blocks" -> Up(n - (x * b * D) - y, W * b * D)
    [] style = "strides" -> Up(n - y, D * b) * E
    [] style = "draws" -> Up(n * E, b * W * D)
Init == /\ n \in 1..MaxN /\ b \in 1..MaxB /\ W \in 1..MaxW /\ D \in 1..MaxD /\ E \in 1..MaxE
        /\ \/ (style = "turns" /\ drop \in BOOLEAN /\ n >= W)
           \/ (style = "blocks" /\ drop = FALSE /\ E = 1 /\ n > (W - 1) * b * D)
           \/ (style = "strides" /\ drop = FALSE /\ W = 1)
           \/ (style = "draws" /\ drop = FALSE)
        /\ w = 0 /\ i = 0 /\ k = 0 /\ out = [x \in 0..(W - 1) |-> [y \in 0..(D - 1) |-> <<>>]]
Done == w = W
Take == /\ ~Done
        /\ LET s == Batch(w, i, k) IN
           IF s # <<>> THEN out' = [out EXCEPT ![w][i] = Append(@, s)] /\ k' = k + 1 /\ UNCHANGED <<w, i>>
           ELSE /\ k' = 0 /\ UNCHANGED out
                /\ IF i + 1 < D THEN i' = i + 1 /\ UNCHANGED w ELSE i' = 0 /\ w' = w + 1
        /\ UNCHANGED env
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Shard == {<<x, y>> : x \in 0..(W - 1), y \in 0..(D - 1)}
Flat(s) == FoldLeft(LAMBDA p, q : p \o q, <<>>, s)
Count(v) == FoldSet(LAMBDA xy, a : a + Len(SelectSeq(Flat(out[xy[1]][xy[2]]), LAMBDA z : z = v)), 0, Shard)
Total(x) == FoldSet(LAMBDA y, a : a + Len(SelectSeq(Flat(out[x][y]), LAMBDA z : z # Pad)), 0, 0..(D - 1))
Covers == (Done /\ style # "draws") => \A v \in 0..(n - 1) : IF drop THEN Count(v) <= E ELSE Count(v) = E
DropsTail == (Done /\ drop) => \A x \in 0..(W - 1) : (Len(Mine(x)) * E) - Total(x) < b
NoMorePadding == (Done /\ style = "turns") => Count(Pad) < b * W
Full == \A xy \in Shard : LET s == out[xy[1]][xy[2]] IN \A j \in 1..Len(s) : Len(s[j]) = b \/ style = "strides"
LengthTold == Done => \A xy \in Shard : Len(out[xy[1]][xy[2]]) = Length(xy[1], xy[2])
Enough == (Done /\ style = "draws") => Count(0) >= n * E
Finishes == <>Done
Emit == Done => PrintT(<<"BEH", ToJson([style |-> style, n |-> n, b |-> b, W |-> W, D |-> D, E |-> E, drop |-> drop])>>)
==========================================================================
