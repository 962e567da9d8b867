----------------------------- MODULE Judge -----------------------------
(* Reading recorded runs and reporting, per run, the clauses of the specification it breaks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Runs == JsonDeserialize(IOEnv.TRACE)
Report(i, clauses) == \A c \in clauses : PrintT(<<"BAD", i, c>>)
(* a named clause: empty when it holds *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
=======================================================================
