---------------------------- MODULE Lines ----------------------------
(* Text as byte sequences and its division into lines.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
NL == 10
CR == 13

(* positions of the newlines of a byte sequence, ascending *)
Newlines(b) == SetToSortSeq({i \in 1..Len(b) : b[i] = NL}, <)

(* all lines of a byte sequence: what precedes each newline, then the unterminated rest if there is one *)
RawLines(b) ==
  LET nls == Newlines(b)
      k == Len(nls)
      start(i) == IF i = 1 THEN 1 ELSE nls[i-1] + 1
  IN [i \in 1..k |-> SubSeq(b, start(i), nls[i] - 1)] \o
     (IF (IF k = 0 THEN 0 ELSE nls[k]) < Len(b) THEN <<SubSeq(b, start(k+1), Len(b))>> ELSE <<>>)

(* a carriage return before the newline is part of the line end *)
RECURSIVE StripCR(_)
StripCR(l) == IF Len(l) > 0 /\ l[Len(l)] = CR THEN StripCR(SubSeq(l, 1, Len(l) - 1)) ELSE l

NonBlank(ls) == SelectSeq(ls, LAMBDA l : Len(l) > 0)
TextLines(b) == NonBlank([i \in 1..Len(RawLines(b)) |-> StripCR(RawLines(b)[i])])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
(* the lines one pass over a list of files owes its reader, and n passes *)
EpochLines(files) == Concat([i \in 1..Len(files) |-> TextLines(files[i])])
Owed(files, epochs) == Repeat(EpochLines(files), epochs)
(* batches: all full, the last may be short unless incomplete batches are dropped *)
BatchSizes(batches, size, drop) ==
  \A i \in 1..Len(batches) : Len(batches[i]) = size \/ (i = Len(batches) /\ ~drop /\ Len(batches[i]) \in 1..size)
Kept(n, size, drop) == IF drop THEN n - (n % size) ELSE n
(* bags as functions *)
BagOf(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
=======================================================================
