----------------------------- MODULE Prefetch -----------------------------
(* Prefetching of query results: a producer walks the sampler and hands every batch to a pool of threads, the      *)
(* threads put results into a bounded queue in the order they finish, the producer adds an end marker with the     *)
(* number of batches, and the consumer takes items until it has seen that many.  Queries or the sampler may fail,  *)
(* and the consumer may close the generator at any point.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS N,          \* most batches
          Caps, Pars, \* queue sizes and numbers of threads
          Unchecked,  \* the consumer trusts the item behind the end marker (the code as it once was)
          Record      \* keep the schedule
VARIABLES n, bad, samperr, cap, par,                       \* the environment
          prod, out, jobs, running, ready, open, queue,    \* producer and pool
          call, idx, cnt, ended, got, closed, joined, sched
env == <<n, bad, samperr, cap, par>>
pool == <<prod, out, jobs, running, ready, open>>
cons == <<call, idx, cnt, ended, got>>
vars == <<env, pool, queue, cons, closed, joined, sched>>
Items == 1..n
Log(e) == sched' = IF Record THEN Append(sched, e) ELSE sched
Quiet == UNCHANGED sched
Init == /\ n \in 0..N /\ cap \in Caps /\ par \in Pars /\ samperr \in BOOLEAN
        /\ bad \in {s \in SUBSET (1..N) : Cardinality(s) <= 1 /\ s \subseteq 1..n}
        /\ prod = "run" /\ out = 0 /\ jobs = <<>> /\ running = {} /\ ready = {} /\ open = TRUE /\ queue = <<>>
        /\ call = FALSE /\ idx = 0 /\ cnt = -1 /\ ended = FALSE /\ got = <<>> /\ closed = FALSE /\ joined = FALSE /\ sched = <<>>
(* the sampler yields a batch, ends or fails; a closed generator lets go of what it was given *)
Sample == /\ prod = "run" /\ Log("S")
          /\ IF out = n THEN prod' = (IF samperr THEN "error" ELSE "marker") /\ UNCHANGED <<out, jobs>>
             ELSE IF closed THEN prod' = "wait" /\ UNCHANGED <<out, jobs>>
             ELSE IF ~open THEN prod' = "error" /\ out' = out + 1 /\ UNCHANGED jobs
             ELSE out' = out + 1 /\ jobs' = Append(jobs, out + 1) /\ UNCHANGED prod
          /\ UNCHANGED <<env, running, ready, open, queue, cons, closed, joined>>
Mark == /\ prod \in {"marker", "error"} /\ Len(queue) < cap /\ Quiet
        /\ queue' = Append(queue, IF prod = "marker" THEN <<"end", out>> ELSE <<"err", 0>>)
        /\ prod' = "wait" /\ UNCHANGED <<env, out, jobs, running, ready, open, cons, closed, joined>>
Start == /\ jobs # <<>> /\ Cardinality(running \cup ready) < par /\ Quiet
         /\ running' = running \cup {Head(jobs)} /\ jobs' = Tail(jobs)
         /\ UNCHANGED <<env, prod, out, ready, open, queue, cons, closed, joined>>
Compute(k) == /\ k \in running /\ Log("F" \o ToString(k))
              /\ running' = running \ {k} /\ ready' = ready \cup {k}
              /\ UNCHANGED <<env, prod, out, jobs, open, queue, cons, closed, joined>>
Put(k) == /\ k \in ready /\ Len(queue) < cap /\ Quiet
          /\ queue' = Append(queue, IF k \in bad THEN <<"err", k>> ELSE <<"item", k>>)
          /\ ready' = ready \ {k} /\ open' = (open /\ k \notin bad)
          /\ UNCHANGED <<env, prod, out, jobs, running, cons, closed, joined>>
Finish == /\ prod = "wait" /\ jobs = <<>> /\ running = {} /\ ready = {} /\ Quiet /\ prod' = "done"
          /\ UNCHANGED <<env, out, jobs, running, ready, open, queue, cons, closed, joined>>
(* the consumer asks for the next result *)
Call == /\ ~call /\ ~closed /\ ~(Len(got) > 0 /\ Last(got)[1] # "item" /\ Len(got) > 1 /\ got[Len(got) - 1][1] # "item")
        /\ Log("C") /\ call' = TRUE /\ UNCHANGED <<env, pool, queue, idx, cnt, ended, got, closed, joined>>
Answer(a) == got' = Append(got, a) /\ call' = FALSE
Over == ended \/ (cnt >= 0 /\ idx = cnt /\ (~Unchecked \/ cnt > 0))
Stop == /\ call /\ Over /\ Quiet /\ Answer(<<"stop", 0>>) /\ ended' = TRUE
        /\ UNCHANGED <<env, pool, queue, idx, cnt, closed, joined>>
Take == /\ call /\ ~Over /\ queue # <<>> /\ Quiet
        /\ queue' = Tail(queue)
        /\ LET h == Head(queue) IN
           CASE h[1] = "item" -> Answer(h) /\ idx' = idx + 1 /\ UNCHANGED <<cnt, ended>>
             [] h[1] = "err" -> (IF Unchecked /\ cnt >= 0 THEN Answer(<<"marker", 0>>) ELSE Answer(<<"raised", 0>>)) /\ ended' = ~Unchecked /\ UNCHANGED <<idx, cnt>>
             [] h[1] = "end" -> cnt' = h[2] /\ (IF Unchecked /\ h[2] = idx THEN Answer(<<"stop", 0>>) ELSE UNCHANGED <<got, call>>) /\ UNCHANGED <<idx, ended>>
        /\ UNCHANGED <<env, pool, closed, joined>>
Close == /\ ~closed /\ ~call /\ Log("X") /\ closed' = TRUE /\ UNCHANGED <<env, pool, queue, cons, joined>>
Drain == /\ closed /\ queue # <<>> /\ Quiet /\ queue' = <<>> /\ UNCHANGED <<env, pool, cons, closed, joined>>
Join == /\ closed /\ ~joined /\ prod = "done" /\ queue = <<>> /\ Quiet /\ joined' = TRUE /\ UNCHANGED <<env, pool, queue, cons, closed>>
Work == Sample \/ Mark \/ Start \/ Finish \/ (\E k \in 1..N : Compute(k) \/ Put(k))
Next == Work \/ Call \/ Stop \/ Take \/ Close \/ Drain \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Call) /\ WF_vars(Stop \/ Take) /\ WF_vars(Drain \/ Join)
        /\ \A k \in 1..N : WF_vars(Compute(k)) /\ WF_vars(Put(k))
        /\ WF_vars(Sample) /\ WF_vars(Mark) /\ WF_vars(Start) /\ WF_vars(Finish)
Delivered == {k \in 1..N : \E j \in 1..Len(got) : got[j] = <<"item", k>>}
Times(k) == Cardinality({j \in 1..Len(got) : got[j] = <<"item", k>>})
Fault == samperr \/ bad # {}
(* every result at most once, nothing but results *)
Once == \A k \in 1..N : Times(k) <= 1
OnlyBatches == \A j \in 1..Len(got) : got[j][1] # "marker" /\ (got[j][1] = "item" => got[j][2] \in Items \ bad)
(* the end is signalled when everything was delivered, and again on every later call *)
EndsRight == \A j \in 1..Len(got) : got[j][1] = "stop" =>
               (\/ (~Fault /\ Delivered = Items)
                \/ \E h \in 1..(j - 1) : got[h][1] = "raised")
StaysEnded == \A j \in 1..Len(got) - 1 : got[j][1] = "stop" => got[j + 1][1] = "stop"
RaisedFair == (\E j \in 1..Len(got) : got[j][1] = "raised") => Fault
Said(w) == \E j \in 1..Len(got) : got[j][1] = w
Ends == <>(closed \/ Said("stop") \/ Said("raised"))
ErrorsTold == (Fault ~> (closed \/ Said("raised")))
AgainAnswered == [](call => <>(~call))
CloseReturns == (closed ~> joined)
(* schedules for replay: what the harness can steer is when the sampler moves, when a query returns, when the consumer asks and closes *)
Emit == (Record /\ (joined \/ (Len(got) > 1 /\ got[Len(got)][1] # "item" /\ got[Len(got) - 1][1] # "item"))) =>
          PrintT(<<"BEH", ToJson([n |-> n, bad |-> SetToSeq(bad), samperr |-> samperr, cap |-> cap, par |-> par, sched |-> sched])>>)
=============================================================================
