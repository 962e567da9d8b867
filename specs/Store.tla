----------------------------- MODULE Store -----------------------------
(* The binary graph store: how a partition's files hold node and edge records, and how features are encoded.  *)
(* A partition p is the raw content of its files:                                                            *)
(*   map  : <<id, position, type>> per node entry (type -1: only the source of edges, stored elsewhere)      *)
(*   nidx : per entry the position of its first feature in nfi, plus one final position                      *)
(*   nfi  : per feature the offset of its bytes in nfd, plus one final offset;  nfd : bytes                  *)
(*   nbi  : per entry the position of its first edge in ei, plus one final position                          *)
(*   ei   : <<dst, position in efi, type, weight>> per edge, plus a terminator                               *)
(*   efi, efd : as nfi, nfd;   ets : <<created, removed>> per edge (temporal graphs);  wm : watermark         *)
(* Ids, weights and times are opaque strings; positions are integers (-1 when out of any sane range).         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

(* --- feature encodings ------------------------------------------------------------------------------ *)
LE(n, k) == [i \in 1..k |-> IF i > 4 THEN 0 ELSE (n \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]
U32(n) == LE(n, 4)
U64(n) == LE(n, 8)
(* items of a temporal feature in the order of their start times *)
ByStart(items) == SortSeq(items, LAMBDA a, b : a.rank < b.rank)
RECURSIVE Encode(_)
Encode(f) ==
  CASE f.k = "none" -> <<>>
    [] f.k = "dense" -> Flat(f.vals)
    [] f.k = "bin" -> f.bytes
    [] f.k = "sparse" -> IF f.vals = <<>> THEN <<>>
                         ELSE U32(Len(f.coords)) \o U32(f.dim) \o Flat(f.coords) \o Flat(f.vals)
    [] f.k = "temporal" ->
         LET its == ByStart(f.items)
             n == Len(its)
             enc == [i \in 1..n |-> Encode(its[i].val)]
             head == 4 + 8 * n + 8 * (n + 1)
             offs == [i \in 1..(n + 1) |-> head + Len(Flat(SubSeq(enc, 1, i - 1)))]
         IN U32(n) \o Flat([i \in 1..n |-> its[i].start]) \o Flat([i \in 1..(n + 1) |-> U64(offs[i])]) \o Flat(enc)
(* stored bytes of a feature against what the record declares; a temporal blob may carry up to 8 spare zero bytes *)
SameFeature(stored, f) ==
  LET e == Encode(f) IN
  stored = e \/ (f.k = "temporal" /\ Len(stored) \in (Len(e) + 1)..(Len(e) + 8) /\ SubSeq(stored, 1, Len(e)) = e
                 /\ \A i \in (Len(e) + 1)..Len(stored) : stored[i] = 0)
SameFeatures(stored, fs) == Len(stored) = Len(fs) /\ \A i \in 1..Len(fs) : SameFeature(stored[i], fs[i])

(* --- reading a partition back --------------------------------------------------------------------------- *)
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
WellFormed(p) ==
  LET n == Len(p.map) IN
  /\ Len(p.nidx) = n + 1 /\ Len(p.nbi) = n + 1 /\ Len(p.ei) >= 1 /\ Len(p.nfi) >= 1 /\ Len(p.efi) >= 1
  /\ \A i \in 1..n : p.map[i].pos = i - 1
  /\ Ascending(p.nidx) /\ Ascending(p.nbi) /\ Ascending(p.nfi) /\ Ascending(p.efi)
  /\ Ascending([i \in 1..Len(p.ei) |-> p.ei[i].fpos])
  /\ p.nidx[1] = 0 /\ p.nbi[1] = 0 /\ p.nfi[1] = 0 /\ p.efi[1] = 0 /\ p.ei[1].fpos = 0
  /\ p.nidx[n + 1] = Len(p.nfi) - 1 /\ p.nfi[Len(p.nfi)] = Len(p.nfd)
  /\ p.nbi[n + 1] = Len(p.ei) - 1
  /\ p.ei[Len(p.ei)].fpos = Len(p.efi) - 1 /\ p.efi[Len(p.efi)] = Len(p.efd)
  /\ (p.temporal => Len(p.ets) = Len(p.ei) - 1)
Feats(fi, fd, from, to) == [k \in 1..(to - from) |-> SubSeq(fd, fi[from + k] + 1, fi[from + k + 1])]
Entry(p, i) == [id |-> p.map[i].id, type |-> p.map[i].type, feats |-> Feats(p.nfi, p.nfd, p.nidx[i], p.nidx[i + 1]),
                edges |-> [k \in 1..(p.nbi[i + 1] - p.nbi[i]) |->
                   LET j == p.nbi[i] + k IN
                   [src |-> p.map[i].id, dst |-> p.ei[j].dst, type |-> p.ei[j].type, w |-> p.ei[j].w,
                    created |-> IF p.temporal THEN p.ets[j].created ELSE "", removed |-> IF p.temporal THEN p.ets[j].removed ELSE "",
                    feats |-> Feats(p.efi, p.efd, p.ei[j].fpos, p.ei[j + 1].fpos)]]]
Entries(p) == [i \in 1..Len(p.map) |-> Entry(p, i)]
Nodes(p) == SelectSeq(Entries(p), LAMBDA e : e.type # -1)
NodeRecs(p) == [i \in 1..Len(Nodes(p)) |-> [id |-> Nodes(p)[i].id, type |-> Nodes(p)[i].type, feats |-> Nodes(p)[i].feats]]
EdgeRecs(p) == Flat([i \in 1..Len(p.map) |-> Entry(p, i).edges])
TypesSorted(p) == \A i \in 1..Len(p.map) : LET es == Entry(p, i).edges IN \A k \in 1..(Len(es) - 1) : es[k].type <= es[k + 1].type
PlaceholdersBare(p) == \A i \in 1..Len(p.map) : Entry(p, i).type = -1 => Entry(p, i).feats = <<>>
=======================================================================
