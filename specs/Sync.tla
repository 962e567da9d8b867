------------------------------- MODULE Sync -------------------------------
(* Start and shutdown of graph engine servers and clients that only share a folder: a server announces itself with a *)
(* file once it is up, a client registers with a file when created, connects when all server files are there and     *)
(* removes its file when closed; a closing server waits for all client files to go before it stops and removes its   *)
(* own.  Servers in Missing never come up, clients in Crashed never close: whoever waits for them times out.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Servers, Clients, Faulty, Record,
          ForgetFork   \* a forked copy of a client removes the file of the original (must not happen)
VARIABLES missing, crashed, sst, cst, sfile, cfile, up, registered, stoppedBy, forked, sched
env == <<missing, crashed>>
vars == <<env, sst, cst, sfile, cfile, up, registered, stoppedBy, forked, sched>>
Log(e, k) == sched' = IF Record THEN Append(sched, <<e, k>>) ELSE sched
Quiet == UNCHANGED sched
Init == /\ missing \in IF Faulty THEN {m \in SUBSET Servers : Cardinality(m) <= 1} ELSE {{}}
        /\ crashed \in IF Faulty THEN {m \in SUBSET Clients : Cardinality(m) <= 1 /\ (m = {} \/ missing = {})} ELSE {{}}
        /\ sst = [s \in Servers |-> "none"] /\ cst = [c \in Clients |-> "none"]
        /\ sfile = {} /\ cfile = {} /\ up = {} /\ registered = {} /\ stoppedBy = [s \in Servers |-> "none"] /\ forked = {} /\ sched = <<>>
StartServer(s) == /\ sst[s] = "none" /\ sst' = [sst EXCEPT ![s] = "starting"] /\ Log("server", s)
                  /\ UNCHANGED <<env, cst, sfile, cfile, up, registered, stoppedBy, forked>>
(* loading done: the server answers, then announces itself *)
Load(s) == /\ sst[s] \in {"starting", "closing", "stopping"} /\ s \notin missing /\ s \notin up /\ up' = up \cup {s} /\ Log("ready", s)
           /\ UNCHANGED <<env, sst, cst, sfile, cfile, registered, stoppedBy, forked>>
Announce(s) == /\ s \in up /\ sst[s] = "starting" /\ sfile' = sfile \cup {s} /\ sst' = [sst EXCEPT ![s] = "ready"] /\ Quiet
               /\ UNCHANGED <<env, cst, cfile, up, registered, stoppedBy, forked>>
NewClient(c) == /\ cst[c] = "none" /\ cst' = [cst EXCEPT ![c] = "new"] /\ cfile' = cfile \cup {c} /\ registered' = registered \cup {c} /\ Log("client", c)
                /\ UNCHANGED <<env, sst, sfile, up, stoppedBy, forked>>
Connect(c) == /\ cst[c] = "new" /\ (\A s \in Servers : sst[s] \notin {"closing", "stopping", "stopped"}) /\ cst' = [cst EXCEPT ![c] = "connecting"] /\ Log("connect", c)
              /\ UNCHANGED <<env, sst, sfile, cfile, up, registered, stoppedBy, forked>>
Connected(c) == /\ cst[c] = "connecting" /\ sfile = Servers /\ cst' = [cst EXCEPT ![c] = "connected"] /\ Quiet
                /\ UNCHANGED <<env, sst, sfile, cfile, up, registered, stoppedBy, forked>>
GiveUp(c) == /\ cst[c] = "connecting" /\ missing # {} /\ cst' = [cst EXCEPT ![c] = "failed"] /\ cfile' = cfile \ {c} /\ Quiet
             /\ UNCHANGED <<env, sst, sfile, up, registered, stoppedBy, forked>>
(* a copy of the client in a forked process closes: only the original owns the file *)
ForkClose(c) == /\ cst[c] \in {"new", "connected"} /\ c \notin forked /\ forked' = forked \cup {c} /\ Log("fork", c)
                /\ cfile' = IF ForgetFork THEN cfile \ {c} ELSE cfile
                /\ UNCHANGED <<env, sst, cst, sfile, up, registered, stoppedBy>>
CloseClient(c) == /\ cst[c] \in {"new", "connected", "failed"} /\ c \notin crashed /\ cst' = [cst EXCEPT ![c] = "closed"] /\ cfile' = cfile \ {c} /\ Log("closec", c)
                  /\ UNCHANGED <<env, sst, sfile, up, registered, stoppedBy, forked>>
CloseAgain(c) == /\ Record /\ cst[c] = "closed" /\ Len(SelectSeq(sched, LAMBDA e : e = <<"closec", c>>)) < 2 /\ Log("closec", c)
                 /\ UNCHANGED <<env, sst, cst, sfile, cfile, up, registered, stoppedBy, forked>>
(* closing before the clients of a run appeared is up to the user; here servers close once every client was created *)
CloseServer(s) == /\ sst[s] \in {"starting", "ready"} /\ registered = Clients /\ (sst[s] = "starting" => s \in missing \/ \A c \in Clients : cst[c] = "closed")
                  /\ (\A c \in Clients : cst[c] \in {"connected", "failed", "closed"} \/ (c \in crashed /\ cst[c] = "new"))
                  /\ sst' = [sst EXCEPT ![s] = "closing"] /\ Log("closes", s) /\ UNCHANGED <<env, cst, sfile, cfile, up, registered, stoppedBy, forked>>
LetGo(s) == /\ sst[s] = "closing" /\ cfile = {} /\ sst' = [sst EXCEPT ![s] = "stopping"] /\ stoppedBy' = [stoppedBy EXCEPT ![s] = "alone"] /\ Quiet
            /\ UNCHANGED <<env, cst, sfile, cfile, up, registered, forked>>
Lose(s) == /\ sst[s] = "closing" /\ crashed # {} /\ sst' = [sst EXCEPT ![s] = "stopping"] /\ stoppedBy' = [stoppedBy EXCEPT ![s] = "timeout"] /\ Quiet
           /\ UNCHANGED <<env, cst, sfile, cfile, up, registered, forked>>
Stop(s) == /\ sst[s] = "stopping" /\ (s \in up \/ s \in missing) /\ sst' = [sst EXCEPT ![s] = "stopped"] /\ sfile' = sfile \ {s} /\ Quiet
           /\ UNCHANGED <<env, cst, cfile, up, registered, stoppedBy, forked>>
Steps == \/ \E s \in Servers : StartServer(s) \/ Load(s) \/ Announce(s) \/ CloseServer(s) \/ LetGo(s) \/ Lose(s) \/ Stop(s)
         \/ \E c \in Clients : NewClient(c) \/ Connect(c) \/ Connected(c) \/ GiveUp(c) \/ CloseClient(c) \/ ForkClose(c)
Next == Steps \/ \E c \in Clients : CloseAgain(c)
Fair == /\ \A s \in Servers : WF_vars(StartServer(s)) /\ WF_vars(Load(s)) /\ WF_vars(Announce(s)) /\ WF_vars(CloseServer(s)) /\ WF_vars(LetGo(s)) /\ WF_vars(Lose(s)) /\ WF_vars(Stop(s))
        /\ \A c \in Clients : WF_vars(NewClient(c)) /\ WF_vars(Connect(c)) /\ WF_vars(Connected(c)) /\ WF_vars(GiveUp(c)) /\ WF_vars(CloseClient(c))
Spec == Init /\ [][Next]_vars /\ Fair
OnlyWhenAllUp == \A c \in Clients : cst[c] = "connected" => up = Servers
Outlives == \A s \in Servers : stoppedBy[s] = "alone" => \A c \in registered : cst[c] \in {"closed", "failed"}
NeverLost == \A s \in Servers : stoppedBy[s] = "timeout" => crashed # {}
Over == (\A s \in Servers : sst[s] = "stopped") /\ \A c \in Clients : cst[c] = "closed" \/ c \in crashed
Clean == Over => sfile = {} /\ cfile \subseteq crashed
AllEnd == <>Over
MissingTold == missing # {} => \A c \in Clients : cst[c] # "connected"
Emit == (Record /\ Over) => PrintT(<<"BEH", ToJson([missing |-> SetToSeq(missing), crashed |-> SetToSeq(crashed), sched |-> sched])>>)
============================================================================
