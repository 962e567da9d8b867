------------------------- MODULE J_TextReader -------------------------
(* Verdicts on recorded runs of the text reader.  A run has: files (bytes, in path order), batch, epochs, drop,   *)
(* shuffle, workers, fault, and per worker the iterations it made: the batches delivered and how it ended.       *)
EXTENDS Judge, Lines
VARIABLE i
Share(files, w, k) == [j \in 1..((Len(files) - k + w - 1) \div w) |-> files[k + 1 + (j - 1) * w]]
Pass(c, k, it) ==
  LET mine == Share(c.files, c.workers, k)
      owed == Owed(mine, c.epochs)
      got == Concat(it.batches)
      n == Len(EpochLines(mine))
      keep == Kept(Len(owed), c.batch, c.drop)
  IN IF it.end = "hang" THEN {"reader-hangs"}
     ELSE IF it.end = "error" THEN Clause("error-without-fault", c.fault) \cup Clause("lines-before-error", c.shuffle \/ IsPrefix(got, owed))
     ELSE IF it.end # "stop" THEN {"unexpected-end"}
     ELSE Clause("error-swallowed", ~(c.fault /\ it.hit)) \cup
          (IF c.fault /\ it.hit THEN {} ELSE
          Clause("batch-sizes", BatchSizes(it.batches, c.batch, c.drop)) \cup
          (IF ~c.shuffle THEN Clause("lines-exactly-once", got = SubSeq(owed, 1, keep))
           ELSE Clause("lines-count", Len(got) = keep) \cup
                Clause("lines-exactly-once-per-epoch",
                   \A e \in 1..c.epochs : e * n <= Len(got) =>
                       BagOf(SubSeq(got, (e - 1) * n + 1, e * n)) = BagOf(EpochLines(mine)))))
Clauses(c) == UNION {UNION {Pass(c, k, c.runs[k + 1][m]) : m \in 1..Len(c.runs[k + 1])} : k \in 0..(c.workers - 1)}
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Clauses(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=======================================================================
