--------------------------- MODULE Converter ---------------------------
(* The partition writer: a state machine appending node and edge records to the files of one partition.   *)
EXTENDS Store, TLC, Json
CONSTANTS Ids, NodeTypes, EdgeTypes, FeatureLists, MaxRecords, Temporal, NodeTimes, EdgeTimes
VARIABLES part, hist, prev, ptype, life, closed
vars == <<part, hist, prev, ptype, life, closed>>
None == "none"

Empty == [map |-> <<>>, nidx |-> <<>>, nfi |-> <<>>, nfd |-> <<>>, nbi |-> <<>>, ei |-> <<>>, efi |-> <<>>, efd |-> <<>>,
          ets |-> <<>>, temporal |-> Temporal]
Init == part = Empty /\ hist = <<>> /\ prev = None /\ ptype = 0 /\ life = <<0, -1>> /\ closed = FALSE
(* feature lists here are already encoded: sequences of byte strings *)
Offsets(base, fs) == [i \in 1..Len(fs) |-> base + Len(Flat(SubSeq(fs, 1, i - 1)))]
PutNode(p, id, t, fs) ==
  [p EXCEPT !.map = Append(p.map, [id |-> id, pos |-> Len(p.map), type |-> t]), !.nidx = Append(p.nidx, Len(p.nfi)),
            !.nfi = p.nfi \o Offsets(Len(p.nfd), fs), !.nfd = p.nfd \o Flat(fs), !.nbi = Append(p.nbi, Len(p.ei))]
PutEdge(p, dst, t, fs, times) ==
  [p EXCEPT !.ei = Append(p.ei, [dst |-> dst, fpos |-> Len(p.efi), type |-> t, w |-> "1"]), !.efi = p.efi \o Offsets(Len(p.efd), fs),
            !.efd = p.efd \o Flat(fs),
            !.ets = IF Temporal THEN Append(p.ets, [created |-> ToString(times[1]), removed |-> ToString(times[2])]) ELSE <<>>]
AddNode(id, t, fs, times) ==
  /\ ~closed /\ Len(hist) < MaxRecords
  /\ part' = PutNode(part, id, t, fs) /\ prev' = id /\ ptype' = 0 /\ life' = times
  /\ hist' = Append(hist, [k |-> "node", id |-> id, dst |-> None, type |-> t, feats |-> fs, times |-> times]) /\ UNCHANGED closed
(* an edge lives inside the life of its node *)
Inside(e, n) == e[1] >= n[1] /\ (n[2] = -1 \/ (e[2] # -1 /\ e[2] <= n[2]))
AddEdge(src, dst, t, fs, times) ==
  /\ ~closed /\ Len(hist) < MaxRecords
  /\ (src = prev => t >= ptype)
  /\ (src = prev => Inside(times, life))
  /\ part' = PutEdge(IF src = prev THEN part ELSE PutNode(part, src, -1, <<>>), dst, t, fs, times)
  /\ prev' = src /\ ptype' = t /\ life' = IF src = prev THEN life ELSE <<0, -1>>
  /\ hist' = Append(hist, [k |-> "edge", id |-> src, dst |-> dst, type |-> t, feats |-> fs, times |-> times]) /\ UNCHANGED closed
Close ==
  /\ ~closed /\ closed' = TRUE
  /\ part' = [part EXCEPT !.nidx = Append(part.nidx, Len(part.nfi)), !.nfi = Append(part.nfi, Len(part.nfd)),
                          !.nbi = Append(part.nbi, Len(part.ei)),
                          !.ei = Append(part.ei, [dst |-> "0", fpos |-> Len(part.efi), type |-> 0, w |-> "-1"]),
                          !.efi = Append(part.efi, Len(part.efd))]
  /\ PrintT(<<"BEH", ToJson(hist)>>)
  /\ UNCHANGED <<hist, prev, ptype, life>>
Next == Close \/ (\E id \in Ids, fs \in FeatureLists : \/ \E t \in NodeTypes, tm \in NodeTimes : AddNode(id, t, fs, tm)
                                                    \/ \E dst \in Ids, t \in EdgeTypes, tm \in EdgeTimes : AddEdge(id, dst, t, fs, tm))
Spec == Init /\ [][Next]_vars

HistNodes == LET h == SelectSeq(hist, LAMBDA r : r.k = "node") IN [i \in 1..Len(h) |-> [id |-> h[i].id, type |-> h[i].type, feats |-> h[i].feats]]
HistEdges == LET h == SelectSeq(hist, LAMBDA r : r.k = "edge") IN
   [i \in 1..Len(h) |-> [src |-> h[i].id, dst |-> h[i].dst, type |-> h[i].type, w |-> "1",
                         created |-> IF Temporal THEN ToString(h[i].times[1]) ELSE "", removed |-> IF Temporal THEN ToString(h[i].times[2]) ELSE "",
                         feats |-> h[i].feats]]
ReadBackInv == closed => /\ WellFormed(part) /\ NodeRecs(part) = HistNodes /\ EdgeRecs(part) = HistEdges
                         /\ TypesSorted(part) /\ PlaceholdersBare(part)
=======================================================================
