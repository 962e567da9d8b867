------------------------------ MODULE Repro ------------------------------
(* Two runs of the same program, a list of sampling questions, with the same seed.  Around the program the world may *)
(* differ between the runs: lookups of others come in between, and the parts of an answer arrive in any order.       *)
(* A question takes the next number of the seeded source and picks that entry of what can be drawn, in a fixed       *)
(* order; so both runs give the same answers.  Variants: a source that lookups use up as well, and a pick from the   *)
(* parts in the order of their arrival.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Questions, Lookups, Parts, Shared, Arrival, Fixed
VARIABLES stream, used, noise, answers, sched
vars == <<stream, used, noise, answers, sched>>
R == {1, 2}
Orders == {f \in [1..Parts -> 1..Parts] : \A i, j \in 1..Parts : i # j => f[i] # f[j]}
Init == /\ stream \in (IF Fixed THEN {[k \in 1..(Questions + Lookups) |-> 1]} ELSE [1..(Questions + Lookups) -> 1..Parts]) /\ used = [r \in R |-> 0] /\ noise = [r \in R |-> 0] /\ answers = [r \in R |-> <<>>] /\ sched = [r \in R |-> <<>>]
Lookup(r) == /\ noise[r] < Lookups /\ noise' = [noise EXCEPT ![r] = @ + 1] /\ used' = (IF Shared THEN [used EXCEPT ![r] = @ + 1] ELSE used)
             /\ sched' = [sched EXCEPT ![r] = Append(@, [e |-> "lookup", order |-> <<>>])] /\ UNCHANGED <<stream, answers>>
Ask(r) == /\ Len(answers[r]) < Questions /\ used' = [used EXCEPT ![r] = @ + 1] /\ \E o \in Orders :
             LET cand == IF Arrival THEN o ELSE SortSeq(o, LAMBDA a, b : a < b) IN
             answers' = [answers EXCEPT ![r] = Append(@, cand[stream[used[r] + 1]])] /\ sched' = [sched EXCEPT ![r] = Append(@, [e |-> "ask", order |-> o])]
          /\ UNCHANGED <<stream, noise>>
Next == \E r \in R : Lookup(r) \/ Ask(r)
Spec == Init /\ [][Next]_vars
View == <<stream, used, noise, answers>>
Same == \A k \in 1..Questions : (Len(answers[1]) >= k /\ Len(answers[2]) >= k) => answers[1][k] = answers[2][k]
(* two whole runs to replay on the engine *)
Done == \A r \in R : Len(answers[r]) = Questions
Emit == Done => PrintT(<<"BEH", ToJson([runs |-> sched])>>)
==========================================================================
