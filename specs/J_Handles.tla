---------------------------- MODULE J_Handles ----------------------------
(* Verdicts on recorded histories of clients, samplers and servers (Handles.tla): what the history says has to work   *)
(* worked, what it says has to fail failed, and whatever was answered is right for the graph of the client.           *)
EXTENDS Answers
VARIABLE i
M == INSTANCE Handles WITH Clients <- {}, Samplers <- {}, Servers <- {}, Remote <- {}, Steps <- 0, Fresh <- TRUE, Keeps <- TRUE, Tidy <- FALSE,
                           h <- i, up <- i, runs <- i, table <- i, cl <- i, sm <- i, got <- i
Step(c, k) ==
  LET x == c.h[k]
      o == c.obs[k]
      ss == IF x.c = 0 THEN {} ELSE ToSet(c.clients[x.c].servers) IN
  Clause("fails-" \o x.e, M!Works(c.h, k, ss) => ~o.err) \cup
  Clause("answers-" \o x.e, M!Fails(c.h, k, ss) => o.err) \cup
  Clause("answers-closed", (x.e = "draw" /\ c.clients[x.c].api /\ ~M!IsOpen(c.h, k, x.c)) => o.err) \cup
  (IF o.err THEN {} ELSE
   IF x.e = "ask" THEN Answer(c.worlds[c.clients[x.c].world], c.qs[k], o.ans)
   ELSE IF x.e = "draw" THEN Answer(c.worlds[c.clients[x.c].world], c.qs[k], <<o.ans>>) ELSE {})
Judged(c) == UNION {Step(c, k) : k \in 1..Len(c.h)}
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
==========================================================================
