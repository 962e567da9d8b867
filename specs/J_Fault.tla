---------------------------- MODULE J_Fault ----------------------------
(* Verdicts on queries issued while servers fail.  A step: the query, per server the outcome of its next calls     *)
(* (0 = works) and whether it is down throughout; observed: error or answer, calls per server, waits in ms.        *)
EXTENDS Answers
VARIABLE i
Fails(st, s, k) == st.down[s] \/ (k <= Len(st.script[s]) /\ st.script[s][k] # 0)
(* a query of many calls fails with any of them *)
Bad(st, k) == \E s \in 1..Len(st.down) : IF st.many THEN \E j \in 1..(Len(st.script[s]) + 1) : Fails(st, s, j) ELSE Fails(st, s, k)
(* the attempt that ends the query: the first that nobody fails in, or the last allowed *)
Last2(c, st) == IF \E k \in 1..c.attempts : ~Bad(st, k) THEN CHOOSE k \in 1..c.attempts : ~Bad(st, k) /\ \A j \in 1..(k - 1) : Bad(st, j) ELSE c.attempts
MaxOf(q) == CHOOSE x \in ToSet(q) : \A y \in ToSet(q) : y <= x
(* a step that reaches only some of the servers fails with the calls it made *)
Reached(st, o) == \E s \in 1..Len(st.down) : \E j \in 1..o.calls[s] : Fails(st, s, j)
Partial(c, st, o) ==
  Clause("fault-silent", Reached(st, o) => o.err) \cup Clause("fault-unneeded-error", ~Reached(st, o) => ~o.err) \cup (IF o.err THEN {} ELSE Answer(c, st.q, o.ans))
Step(c, st, o) == IF st.many /\ st.q.op = "gmany" THEN Partial(c, st, o) ELSE
  LET a == Last2(c, st)
      fails == Bad(st, a) IN
  Clause("fault-silent", fails => o.err) \cup
  Clause("fault-unneeded-error", ~fails => ~o.err) \cup
  Clause("fault-attempts", st.many \/ MaxOf(o.calls) = a) \cup
  Clause("fault-backoff", Len(o.waits) = a - 1 /\ \A k \in 1..Len(o.waits) : o.waits[k] >= c.backoff[1] /\ o.waits[k] <= c.backoff[2]) \cup
  (IF o.err \/ fails THEN {} ELSE Answer(c, st.q, o.ans))
(* connecting: one failed attempt per scripted failure, then it works *)
Judged(c) == Clause("fault-connect", c.connected = [k \in 1..Len(c.connect) |-> FALSE] \o <<TRUE>>) \cup UNION {Step(c, c.steps[k], c.obs[k]) : k \in 1..Len(c.steps)}
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
=======================================================================
