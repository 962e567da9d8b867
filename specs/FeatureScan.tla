--------------------------- MODULE FeatureScan ---------------------------
(* Answering a feature request for one node: the records of the node in the loaded partitions are visited one      *)
(* after another; a newer version replaces an older one, and what no record provides is filled with zeros.          *)
(* A static feature is a single version from time 0 on.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS MaxFeats, MaxSize, MaxReq, Temporal, MaxTime
VARIABLES recs, fid, size, t, p, flag, out, done
vars == <<recs, fid, size, t, p, flag, out, done>>
(* a feature: sequence of versions [start, len] with ascending start; <<>> = declared without a value *)
Version == [start : 0..MaxTime, len : 0..MaxSize]
Static == {<<[start |-> 0, len |-> n]>> : n \in 0..MaxSize}
Versions == {<<>>} \cup {<<v>> : v \in [start : 0..MaxTime, len : 1..MaxSize]} \cup
            {<<v, w>> : v \in [start : 0..(MaxTime - 1), len : 1..MaxSize], w \in [start : 1..MaxTime, len : 1..MaxSize]}
Feats == IF Temporal THEN {f \in Versions : Len(f) < 2 \/ f[1].start < f[2].start} ELSE Static
FeatLists == UNION {[1..n -> Feats] : n \in 0..MaxFeats}
(* byte k of version j of a feature *)
Byte(i, j) == 16 * i + j
(* the node is declared in one partition; others may hold edges of it and know nothing else *)
Init == /\ recs \in {<<[home |-> TRUE, feats |-> f]>> : f \in FeatLists} \cup {<<[home |-> FALSE, feats |-> <<>>], [home |-> TRUE, feats |-> f]>> : f \in FeatLists}
                \cup {<<[home |-> TRUE, feats |-> f], [home |-> FALSE, feats |-> <<>>]>> : f \in FeatLists}
        /\ fid \in 0..MaxFeats /\ size \in 1..MaxReq
        /\ t \in IF Temporal THEN 0..MaxTime ELSE {0}
        /\ p = 1 /\ flag = -1 /\ out = [k \in 1..size |-> 255] /\ done = FALSE
Newest(f) == LET ok == {j \in 1..Len(f) : f[j].start <= t} IN IF ok = {} THEN 0 ELSE CHOOSE j \in ok : \A m \in ok : m <= j
Visit ==
  /\ ~done /\ p <= Len(recs) /\ p' = p + 1
  /\ LET r == recs[p].feats IN
     IF (Temporal /\ flag = t) \/ (~Temporal /\ flag >= 0) \/ fid + 1 > Len(r) THEN UNCHANGED <<flag, out>> ELSE
     LET j == Newest(r[fid + 1]) IN
     IF j = 0 \/ r[fid + 1][j].start <= flag THEN UNCHANGED <<flag, out>> ELSE
     /\ flag' = r[fid + 1][j].start
     /\ out' = [k \in 1..size |-> IF k <= r[fid + 1][j].len THEN Byte(fid, j) ELSE 0]
  /\ UNCHANGED <<recs, fid, size, t, done>>
Finish ==
  /\ ~done /\ p > Len(recs) /\ done' = TRUE
  /\ out' = (IF flag < 0 THEN [k \in 1..size |-> 0] ELSE out)
  /\ PrintT(<<"BEH", ToJson([recs |-> recs, fid |-> fid, size |-> size, t |-> t])>>)
  /\ UNCHANGED <<recs, fid, size, t, p, flag>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Home == CHOOSE k \in 1..Len(recs) : recs[k].home
Declared == LET f == recs[Home].feats IN IF fid + 1 > Len(f) THEN <<>> ELSE f[fid + 1]
Answer == LET j == Newest(Declared) IN [k \in 1..size |-> IF j # 0 /\ k <= Declared[j].len THEN Byte(fid, j) ELSE 0]
Right == done => out = Answer
Terminates == <>done
=======================================================================
