------------------------------ MODULE J_Repro ------------------------------
(* Verdicts on recorded runs of the same questions: runs with the same seed agree on every answer (Same of         *)
(* Repro.tla), whatever else happened around them; with another seed draws from many elements come out differently. *)
EXTENDS Judge
VARIABLE i
Judged(c) ==
  LET K == 1..Len(c.ops)
      Name(k) == IF c.ops[k].op = "gmany" THEN "elements" ELSE c.ops[k].op
      Twins == {j \in 1..Len(c.runs) : c.runs[j].shift = 0}
      Others == {j \in 1..Len(c.runs) : c.runs[j].shift # 0} IN
  Clause("runs", Len(c.answers) = Len(c.runs) /\ \A j \in 1..Len(c.answers) : Len(c.answers[j]) = Len(c.ops)) \cup
  UNION {Clause("differs-" \o Name(k) \o "-" \o c.runs[j].why, c.answers[j][k] = c.answers[1][k]) : k \in K, j \in Twins} \cup
  UNION {Clause("seed-ignored-" \o Name(k), c.rich => c.answers[j][k] # c.answers[1][k]) : k \in K, j \in Others}
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
============================================================================
