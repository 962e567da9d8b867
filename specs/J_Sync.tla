------------------------------ MODULE J_Sync ------------------------------
(* Verdicts on recorded runs of synchronized servers and clients: a log of calls and of what they did to the wrapped  *)
(* servers and clients, in order of time, and what was left at the end.  Same properties as Sync.tla.                 *)
EXTENDS Judge
VARIABLE i
Judged(c) ==
  LET g == c.log
      L == 1..Len(g)
      At(e, k) == {j \in L : g[j].e = e /\ g[j].k = k}
      Before(e, k, j) == \E h \in At(e, k) : h < j
      Some(e, k) == At(e, k) # {}
      First(e, k) == CHOOSE j \in At(e, k) : \A h \in At(e, k) : j <= h
      Started == {k \in 0..(c.S - 1) : Some("server", k)}
      Works == Started \ ToSet(c.missing)
      Crashed == ToSet(c.crashed) IN
  Clause("connects-early", \A j \in L : g[j].e = "c-up" => \A s \in 0..(c.S - 1) : Before("s-up", s, j)) \cup
  Clause("not-connected", \A j \in L : g[j].e = "connect-done" => Before("c-up", g[j].k, j)) \cup
  Clause("connects-twice", \A k \in 0..(c.C - 1) : Cardinality(At("c-up", k)) <= 1) \cup
  Clause("different-clients", \A j \in L : g[j].e # "c-other") \cup
  Clause("needless-timeout", c.missing = <<>> => \A j \in L : g[j].e # "connect-timeout") \cup
  Clause("no-timeout", c.missing # <<>> => \A j \in L : g[j].e # "connect-done") \cup
  Clause("raises", \A j \in L : g[j].e \notin {"connect-raised", "closec-raised", "closes-raised", "closec-timeout", "closes-timeout"}) \cup
  Clause("hangs", c.stuck = <<>>) \cup
  Clause("process-left", c.alive = 0) \cup
  Clause("client-not-closed", \A k \in 0..(c.C - 1) : (Some("c-up", k) /\ Some("closec-done", k)) => Before("c-down", k, First("closec-done", k))) \cup
  (* a server stays until every client known when it was asked to stop is closed, or its patience is over *)
  Clause("leaves-clients", \A s \in Works : \A j \in At("s-down", s) : Some("closes", s) /\ LET q == First("closes", s) IN
            q < j /\ (\A k \in 0..(c.C - 1) : (Some("client", k) /\ First("client", k) < q) =>
                        (Before("closec", k, j) \/ Before("connect-timeout", k, j) \/ (c.missing # <<>> /\ Before("connect", k, j)) \/ (Crashed # {} /\ g[j].t - g[q].t >= (c.short * 9) \div 10)))) \cup
  Clause("down-before-client", \A s \in Works : \A j \in At("s-down", s) : \A k \in 0..(c.C - 1) :
            (Before("c-up", k, j) /\ Some("c-down", k) /\ Crashed = {}) => Before("c-down", k, j)) \cup
  Clause("close-returns-early", \A s \in Works : Some("closes-done", s) => LET j == First("closes-done", s) IN
            \A k \in 0..(c.C - 1) : (Some("client", k) /\ First("client", k) < First("closes", s)) =>
                 (Before("closec", k, j) \/ Before("connect-timeout", k, j) \/ (Crashed # {} /\ g[j].t - g[First("closes", s)].t >= (c.short * 9) \div 10))) \cup
  Clause("server-not-stopped", \A s \in Works : (Some("s-up", s) /\ Some("closes-done", s)) => Cardinality(At("s-down", s)) = 1) \cup
  Clause("file-left", \A f \in 1..Len(c.left) : \E k \in Crashed : c.left[f] = "snark_" \o ToString(c.ranks[k + 1]) \o ".client") \cup
  Clause("crashed-file-gone", \A k \in Crashed : c.stuck = <<>> => \E f \in 1..Len(c.left) : c.left[f] = "snark_" \o ToString(c.ranks[k + 1]) \o ".client")
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
===========================================================================
