--------------------------- MODULE J_Engine ---------------------------
(* Verdicts on recorded engine queries. *)
EXTENDS Answers
VARIABLE i
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Clauses(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=======================================================================
