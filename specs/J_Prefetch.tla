---------------------------- MODULE J_Prefetch ----------------------------
(* Verdicts on recorded iterations of the prefetching generator: what successive next() calls gave (item k, stop,   *)
(* raised, foreign), whether a call never returned, and how closing went.  Same properties as Prefetch.tla.         *)
EXTENDS Judge
VARIABLE i
Fault(c) == c.samperr \/ Len(c.bad) > 0
Judged(c) ==
  LET g == c.got
      L == 1..Len(g)
      Is(j, w) == g[j][1] = w
      Delivered == {g[j][2] : j \in {j \in L : Is(j, "item")}}
      Raised(j) == \E h \in 1..j : Is(h, "raised") IN
  Clause("next-hangs", ~c.stuck) \cup
  Clause("not-a-batch", \A j \in L : ~Is(j, "foreign")) \cup
  Clause("unknown-batch", Delivered \subseteq (1..c.n) \ ToSet(c.bad)) \cup
  Clause("batch-twice", Cardinality(Delivered) = Cardinality({j \in L : Is(j, "item")})) \cup
  Clause("batch-lost", (~Fault(c) /\ ~c.early /\ ~c.stuck) => Delivered = 1..c.n) \cup
  Clause("ends-early", \A j \in L : Is(j, "stop") => Raised(j) \/ (~Fault(c) /\ Delivered = 1..c.n /\ \A h \in L : Is(h, "item") => h < j)) \cup
  Clause("never-ends", c.early \/ c.stuck \/ (\E j \in L : ~Is(j, "item"))) \cup
  Clause("end-forgotten", \A j \in 1..(Len(g) - 1) : Is(j, "stop") => Is(j + 1, "stop")) \cup
  Clause("error-silent", (Fault(c) /\ ~c.early /\ ~c.stuck) => \E j \in L : Is(j, "raised")) \cup
  Clause("error-unneeded", ~Fault(c) => \A j \in L : ~Is(j, "raised")) \cup
  Clause("error-text", \A j \in L : Is(j, "raised") => (g[j][2] = 1 \/ Raised(j - 1) \/ ~Fault(c))) \cup
  Clause("close-hangs", c.closed # "hang") \cup
  Clause("close-raises", c.closed \in {"hang", "ok"}) \cup
  Clause("asked-twice", \A j \in 1..(Len(c.asked) - 1) : c.asked[j] # c.asked[j + 1])
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
============================================================================
