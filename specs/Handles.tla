----------------------------- MODULE Handles -----------------------------
(* Clients, their samplers and the servers of one stored graph, opened, closed, stopped and started in any order.     *)
(* A history is the sequence of what was done; what a question to a client or sampler has to give follows from the    *)
(* history alone (Works, Fails, and never something of another sampler).  Below it the mechanism: servers keep tables *)
(* of samplers that clients refer to by number, and samplers of local clients share the data of their client.         *)
(* Variants: numbers that start from zero again in every run of a server, samplers that do not keep their data, and   *)
(* clients that take their samplers out of the tables when they close.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Clients, Samplers, Servers, Remote, Steps, Fresh, Keeps, Tidy
VARIABLES h, up, runs, table, cl, sm, got
vars == <<h, up, runs, table, cl, sm, got>>

(* --- what follows from a history, before its k-th step --- *)
Last2(hist, k, P(_)) == LET S == {j \in 1..(k - 1) : P(hist[j])} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : i <= j
IsOpen(hist, k, c) == Last2(hist, k, LAMBDA x : x.e = "open" /\ x.c = c) > 0 /\ Last2(hist, k, LAMBDA x : x.e = "close" /\ x.c = c) = 0
IsUp(hist, k, s) == Last2(hist, k, LAMBDA x : x.e = "start" /\ x.s = s) >= Last2(hist, k, LAMBDA x : x.e = "stop" /\ x.s = s)
AllUp(hist, k, ss) == \A s \in ss : IsUp(hist, k, s)
Made(hist, k, m) == Last2(hist, k, LAMBDA x : x.e = "make" /\ x.m = m)
IsShut(hist, k, m) == Last2(hist, k, LAMBDA x : x.e = "shut" /\ x.m = m) > 0
(* no server of the sampler's client was stopped since it was made *)
SameRun(hist, k, m, ss) == \A s \in ss : Last2(hist, k, LAMBDA x : x.e = "stop" /\ x.s = s) < Made(hist, k, m)
(* ss: the servers a client asks; none for a local one *)
Works(hist, k, ss) == LET x == hist[k] IN
  CASE x.e = "ask" -> IsOpen(hist, k, x.c) /\ AllUp(hist, k, ss)
    [] x.e = "draw" -> IsOpen(hist, k, x.c) /\ ~IsShut(hist, k, x.m) /\ AllUp(hist, k, ss) /\ SameRun(hist, k, x.m, ss)
    [] OTHER -> TRUE
Fails(hist, k, ss) == LET x == hist[k] IN
  CASE x.e = "ask" -> ~IsOpen(hist, k, x.c) \/ ~AllUp(hist, k, ss)
    [] x.e = "draw" -> IsShut(hist, k, x.m)  \* a draw need not reach every server
    [] OTHER -> FALSE

(* --- the mechanism --- *)
Of(c) == IF c \in Remote THEN Servers ELSE {}
Init == /\ h = <<>> /\ up = [s \in Servers |-> TRUE] /\ runs = [s \in Servers |-> 0] /\ table = [s \in Servers |-> <<>>]
        /\ cl = [c \in Clients |-> "none"] /\ sm = [m \in Samplers |-> [st |-> "none", of |-> 0, id |-> [s \in Servers |-> 0]]] /\ got = "right"
Ev(e, c, m, s) == [e |-> e, c |-> c, m |-> m, s |-> s]
Log(x) == Len(h) < Steps /\ h' = Append(h, x)
First(s) == IF Fresh THEN 100 * runs[s] ELSE 0
Open(c) == /\ cl[c] = "none" /\ (\A s \in Of(c) : up[s]) /\ Log(Ev("open", c, 0, 0)) /\ cl' = [cl EXCEPT ![c] = "open"] /\ got' = "right" /\ UNCHANGED <<up, runs, table, sm>>
Close(c) == /\ cl[c] # "none" /\ Log(Ev("close", c, 0, 0)) /\ cl' = [cl EXCEPT ![c] = "closed"] /\ got' = "right"
            /\ table' = (IF Tidy /\ c \in Remote THEN [s \in Servers |-> SelectSeq(table[s], LAMBDA m : sm[m].of # c)] ELSE table) /\ UNCHANGED <<up, runs, sm>>
Make(m, c) == /\ sm[m].st = "none" /\ cl[c] = "open" /\ (\A s \in Of(c) : up[s]) /\ Log(Ev("make", c, m, 0)) /\ got' = "right"
              /\ sm' = [sm EXCEPT ![m] = [st |-> "open", of |-> c, id |-> [s \in Servers |-> First(s) + Len(table[s]) + 1]]]
              /\ table' = (IF c \in Remote THEN [s \in Servers |-> Append(table[s], m)] ELSE table) /\ UNCHANGED <<up, runs, cl>>
Shut(m) == /\ sm[m].st # "none" /\ Log(Ev("shut", sm[m].of, m, 0)) /\ sm' = [sm EXCEPT ![m].st = "shut"] /\ got' = "right" /\ UNCHANGED <<up, runs, table, cl>>
Stop(s) == /\ up[s] /\ Log(Ev("stop", 0, 0, s)) /\ up' = [up EXCEPT ![s] = FALSE] /\ table' = [table EXCEPT ![s] = <<>>] /\ got' = "right" /\ UNCHANGED <<runs, cl, sm>>
Start(s) == /\ ~up[s] /\ Log(Ev("start", 0, 0, s)) /\ up' = [up EXCEPT ![s] = TRUE] /\ runs' = [runs EXCEPT ![s] = @ + 1] /\ got' = "right" /\ UNCHANGED <<table, cl, sm>>
Ask(c) == /\ cl[c] # "none" /\ Log(Ev("ask", c, 0, 0)) /\ got' = (IF cl[c] = "closed" \/ \E s \in Of(c) : ~up[s] THEN "error" ELSE "right") /\ UNCHANGED <<up, runs, table, cl, sm>>
Piece(m, s) == LET k == sm[m].id[s] - First(s) IN IF ~up[s] \/ k \notin 1..Len(table[s]) THEN "error" ELSE IF table[s][k] = m THEN "right" ELSE "wrong"
Draw(m) == /\ sm[m].st # "none" /\ Log(Ev("draw", sm[m].of, m, 0)) /\ UNCHANGED <<up, runs, table, cl, sm>>
           /\ got' = (IF sm[m].st = "shut" THEN "error"
                      ELSE IF sm[m].of \in Remote THEN LET p == {Piece(m, s) : s \in Servers} IN IF "error" \in p THEN "error" ELSE IF "wrong" \in p THEN "wrong" ELSE "right"
                      ELSE IF Keeps \/ cl[sm[m].of] = "open" THEN "right" ELSE "wrong")
Next == \/ \E c \in Clients : Open(c) \/ Close(c) \/ Ask(c)
        \/ \E m \in Samplers : Shut(m) \/ Draw(m) \/ \E c \in Clients : Make(m, c)
        \/ \E s \in Servers : Stop(s) \/ Start(s)
Spec == Init /\ [][Next]_vars
Right == h # <<>> => LET k == Len(h)
                         ss == Of(h[k].c) IN
  /\ got # "wrong"
  /\ Works(h, k, ss) => got = "right"
  /\ Fails(h, k, ss) => got = "error"
NotBoth == h # <<>> => ~(Works(h, Len(h), Of(h[Len(h)].c)) /\ Fails(h, Len(h), Of(h[Len(h)].c)))
Emit == Len(h) = Steps => PrintT(<<"BEH", ToJson([h |-> h])>>)
==========================================================================
