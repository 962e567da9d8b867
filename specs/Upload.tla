------------------------------ MODULE Upload ------------------------------
(* Uploading to remote storage.  The writer deals chunks round robin to the bounded queues of P processes; every    *)
(* process moves them to T threads; a thread appends what it takes to its own file, starts another file after       *)
(* PerFile chunks and closes the last one when told to stop.  A file is stored once closed.  Closing the writer     *)
(* sends an end marker (0) to every process and waits for it.  A thread may fail; monitors then stop its process    *)
(* and, once a process is gone, the whole writer.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N, P, T, Cap, PerFile, \* chunks, processes, threads of a process, size of a queue, chunks per file (0: any)
          Faults,                \* most failures of threads
          Empty,                 \* chunks without any content
          EmptyEnds,             \* empty chunks are taken for the end marker (the code as it once was)
          Patient                \* a full queue is waited for even if nobody empties it any more (the code as it once was)
VARIABLES op, k, left,           \* what the caller does, next chunk, faults left
          running, sent, told,   \* the writer: accepting, processes already told to stop, outcome per chunk
          bound,                 \* closing has decided to put the end marker, whatever happens to the process
          q, main, inner, started, th, cur, stored, mon
vars == <<op, k, left, running, sent, told, bound, q, main, inner, started, th, cur, stored, mon>>
Procs == 1..P
Threads == 1..T
Files(p, t) == stored[p][t]
Ends(c) == c = 0 \/ (EmptyEnds /\ c \in Empty)
Alive(p) == main[p] # "done" \/ \E t \in Threads : th[p][t] = "run"
Init == /\ op = "idle" /\ k = 1 /\ left = Faults /\ running = TRUE /\ sent = 0 /\ bound = FALSE /\ told = [c \in 1..N |-> "none"]
        /\ q = [p \in Procs |-> <<>>] /\ main = [p \in Procs |-> "run"] /\ inner = [p \in Procs |-> <<>>]
        /\ started = [p \in Procs |-> TRUE] /\ th = [p \in Procs |-> [t \in Threads |-> "run"]]
        /\ cur = [p \in Procs |-> [t \in Threads |-> <<>>]] /\ stored = [p \in Procs |-> [t \in Threads |-> <<>>]]
        /\ mon = "watch"
Child == <<main, inner, started, th, cur, stored, left>>
(* the caller *)
Call == op = "idle" /\ k <= N /\ op' = "write" /\ UNCHANGED <<k, running, sent, bound, told, q, Child, mon>>
Dest == ((k - 1) % P) + 1
Put == /\ op = "write" /\ Len(q[Dest]) < Cap /\ (running \/ Patient)
       /\ q' = [q EXCEPT ![Dest] = Append(@, k)] /\ told' = [told EXCEPT ![k] = "ok"] /\ op' = "idle" /\ k' = k + 1
       /\ UNCHANGED <<running, sent, bound, Child, mon>>
Refuse == /\ op = "write" /\ ~running /\ ~Patient
          /\ told' = [told EXCEPT ![k] = "refused"] /\ op' = "idle" /\ k' = k + 1 /\ UNCHANGED <<running, sent, bound, q, Child, mon>>
Close == /\ op = "idle" /\ op' = (IF running THEN "close" ELSE "closed") /\ running' = FALSE
         /\ UNCHANGED <<k, sent, bound, told, q, Child, mon>>
(* closing, by the caller or by the monitor: one process after the other is told, then all are waited for *)
Closing == op = "close" \/ mon = "close"
Bind == /\ Closing /\ sent < P /\ Patient /\ Alive(sent + 1) /\ ~bound /\ bound' = TRUE
        /\ UNCHANGED <<op, k, running, sent, told, q, Child, mon>>
Tell == /\ Closing /\ sent < P
        /\ IF bound \/ (~Patient /\ Alive(sent + 1))
           THEN Len(q[sent + 1]) < Cap /\ q' = [q EXCEPT ![sent + 1] = Append(@, 0)]
           ELSE ~Alive(sent + 1) /\ UNCHANGED q
        /\ bound' = FALSE /\ sent' = sent + 1 /\ UNCHANGED <<op, k, running, told, Child, mon>>
Over == /\ Closing /\ sent = P /\ \A p \in Procs : ~Alive(p)
        /\ IF op = "close" THEN op' = "closed" /\ UNCHANGED mon ELSE mon' = "end" /\ UNCHANGED op
        /\ UNCHANGED <<k, running, sent, bound, told, q, Child>>
Watch == /\ mon = "watch" /\ \E p \in Procs : ~Alive(p)
         /\ mon' = (IF running THEN "close" ELSE "end") /\ running' = FALSE
         /\ UNCHANGED <<op, k, sent, bound, told, q, Child>>
(* a process: its main thread, its monitor, its threads *)
StopThreads(p) == /\ started' = [started EXCEPT ![p] = FALSE]
                  /\ inner' = [inner EXCEPT ![p] = @ \o [j \in 1..Cardinality({t \in Threads : th[p][t] = "run"}) |-> 0]]
Move(p) == /\ main[p] = "run" /\ q[p] # <<>> /\ q' = [q EXCEPT ![p] = Tail(@)]
           /\ IF Ends(Head(q[p])) \/ ~started[p]
              THEN main' = [main EXCEPT ![p] = "stop"] /\ UNCHANGED inner
              ELSE inner' = [inner EXCEPT ![p] = Append(@, Head(q[p]))] /\ UNCHANGED main
           /\ UNCHANGED <<op, k, running, sent, bound, told, started, th, cur, stored, left, mon>>
Stop(p) == /\ main[p] = "stop" /\ (IF started[p] THEN StopThreads(p) ELSE UNCHANGED <<started, inner>>)
           /\ main' = [main EXCEPT ![p] = "done"]
           /\ UNCHANGED <<op, k, running, sent, bound, told, q, th, cur, stored, left, mon>>
Guard(p) == /\ started[p] /\ (\E t \in Threads : th[p][t] # "run") /\ StopThreads(p)
            /\ UNCHANGED <<op, k, running, sent, bound, told, q, main, th, cur, stored, left, mon>>
Take(p, t) ==
  /\ th[p][t] = "run" /\ inner[p] # <<>> /\ inner' = [inner EXCEPT ![p] = Tail(@)]
  /\ LET c == Head(inner[p])
         full == PerFile > 0 /\ Len(cur[p][t]) = PerFile IN
     IF Ends(c)
     THEN /\ th' = [th EXCEPT ![p][t] = "over"] /\ cur' = [cur EXCEPT ![p][t] = <<>>]
          /\ stored' = [stored EXCEPT ![p][t] = IF cur[p][t] = <<>> THEN @ ELSE Append(@, cur[p][t])]
     ELSE /\ UNCHANGED th
          /\ cur' = [cur EXCEPT ![p][t] = IF full THEN <<c>> ELSE Append(@, c)]
          /\ stored' = [stored EXCEPT ![p][t] = IF full THEN Append(@, cur[p][t]) ELSE @]
  /\ UNCHANGED <<op, k, running, sent, bound, told, q, main, started, left, mon>>
Fail(p, t) == /\ left > 0 /\ th[p][t] = "run" /\ inner[p] # <<>> /\ Head(inner[p]) # 0 /\ left' = left - 1
              /\ inner' = [inner EXCEPT ![p] = Tail(@)] /\ th' = [th EXCEPT ![p][t] = "failed"]
              /\ UNCHANGED <<op, k, running, sent, bound, told, q, main, started, cur, stored, mon>>
Caller == Call /\ UNCHANGED left
Next == Caller \/ Put \/ Refuse \/ Close \/ Bind \/ Tell \/ Over \/ Watch
        \/ \E p \in Procs : Move(p) \/ Stop(p) \/ Guard(p) \/ \E t \in Threads : Take(p, t) \/ Fail(p, t)
Fair == /\ WF_vars(Put) /\ WF_vars(Refuse) /\ WF_vars(Bind) /\ WF_vars(Tell) /\ WF_vars(Over) /\ WF_vars(Watch)
        /\ \A p \in Procs : WF_vars(Move(p)) /\ WF_vars(Stop(p)) /\ WF_vars(Guard(p)) /\ \A t \in Threads : WF_vars(Take(p, t))
Spec == Init /\ [][Next]_vars /\ Fair
AllFiles == UNION {{<<p, t, f>> : f \in 1..Len(stored[p][t])} : p \in Procs, t \in Threads}
Content(x) == stored[x[1]][x[2]][x[3]]
Places(c) == {<<x, j>> \in AllFiles \X (1..N) : j <= Len(Content(x)) /\ Content(x)[j] = c}
Failed == \E p \in Procs, t \in Threads : th[p][t] = "failed"
(* closed: everything accepted is stored, once; a file keeps the order of writing and holds no more than asked *)
Whole == (op = "closed" /\ ~Failed) => \A c \in 1..N : told[c] = "ok" => Cardinality(Places(c)) = 1
Once == \A c \in 1..N : Cardinality(Places(c)) <= 1 /\ (told[c] # "ok" => Places(c) = {})
Ordered == \A x \in AllFiles : \A j \in 1..(Len(Content(x)) - 1) : Content(x)[j] < Content(x)[j + 1]
Sized == \A x \in AllFiles : PerFile > 0 => Len(Content(x)) <= PerFile
RefusedFair == (\E c \in 1..N : told[c] = "refused") => (Failed \/ op = "closed" \/ EmptyEnds)
WriteReturns == (op = "write") ~> (op # "write")
CloseReturns == (op = "close") ~> (op = "closed")
===========================================================================
