---------------------------- MODULE J_Cluster ----------------------------
(* Verdicts on clusters of real workers, same properties as Exchange.tla: who started a server, on which address and  *)
(* with which partitions, and to which list of servers every worker connected.                                        *)
EXTENDS Judge
VARIABLE i
Judged(c) ==
  LET W == 0..(Len(c.workers) - 1)
      H == c.hosts
      Ph == 1..c.phases
      In(s, p) == SelectSeq(s, LAMBDA x : x.phase = p)
      S(p) == In(c.servers, p)
      K(p) == In(c.clients, p)
      HostOf(w) == c.workers[w + 1].host
      Number(s, T(_)) == Cardinality({j \in 1..Len(s) : T(s[j])}) IN
  Clause("raises", c.raiseds = <<>>) \cup
  Clause("hangs", c.stuck = <<>>) \cup
  (IF c.raiseds # <<>> \/ c.stuck # <<>> THEN {} ELSE
  Clause("not-ready", \A p \in Ph : \A w \in W : Number(c.readys, LAMBDA x : x.w = w /\ x.phase = p) = 1) \cup
  Clause("one-server-per-host", \A p \in Ph : \A h \in 0..(H - 1) :
            LET n == Number(S(p), LAMBDA x : HostOf(x.w) = h) IN n = (IF c.skip THEN 0 ELSE 1)) \cup
  Clause("connects-once", \A p \in Ph : \A w \in W : Number(K(p), LAMBDA x : x.w = w) = 1) \cup
  Clause("same-list", \A p \in Ph : \A a \in 1..Len(K(p)) : K(p)[a].servers = K(p)[1].servers /\ Len(K(p)[a].servers) = H) \cup
  Clause("list-given", c.given # <<>> => \A p \in Ph : \A a \in 1..Len(K(p)) : K(p)[a].servers = c.given) \cup
  (* every address of the list is served, by one server *)
  Clause("addresses", (~c.skip /\ \A p \in Ph : Len(K(p)) > 0) => \A p \in Ph : LET L == K(p)[1].servers IN
            \A j \in 1..Len(L) : Number(S(p), LAMBDA x : x.addr = L[j]) = 1) \cup
  (* an address announced by a worker is served on the host of that worker *)
  Clause("address-of-another-host", c.located => \A a \in 1..Len(c.servers) : c.servers[a].host = "127.0.0." \o ToString(HostOf(c.servers[a].w) + 1)) \cup
  Clause("partitions", c.skip \/ \A p \in Ph :
            /\ \A q \in 0..(c.parts - 1) : Number(S(p), LAMBDA x : q \in ToSet(x.parts)) = 1
            /\ \A a \in 1..Len(S(p)) : Cardinality(ToSet(S(p)[a].parts)) = Len(S(p)[a].parts) /\ ToSet(S(p)[a].parts) \subseteq 0..(c.parts - 1)) \cup
  Clause("not-closed", \A p \in Ph : \A w \in W : Number(c.closeds, LAMBDA x : x.w = w /\ x.phase = p) = 1) \cup
  Clause("files-left", c.left = <<>>))
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
===========================================================================
