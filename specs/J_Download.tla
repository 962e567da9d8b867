--------------------------- MODULE J_Download ---------------------------
(* Verdicts on graphs loaded from other filesystems: the answers are those of the graph, and every file of a          *)
(* partition that had to be fetched is in the local copy, unchanged; closing removes the copy.                         *)
EXTENDS Answers
VARIABLE i
Judged(c) == Clauses(c) \cup Clause("files-missing", ToSet(c.needed) \subseteq ToSet(c.got)) \cup
             Clause("copy-remains", c.remain = <<>>)
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=========================================================================
