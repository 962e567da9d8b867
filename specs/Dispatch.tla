--------------------------- MODULE Dispatch ---------------------------
(* One converter worker: a reader hands records over bounded channels to partition writers, then an end marker   *)
(* per writer in use, and collects one report per writer.  Reading, fetching and writing interleave freely.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Records, Parts, Cap, AllParts, RoundRobin
VARIABLES assign, fed, chan, hand, written, ended, reports, got, hist, phase
vars == <<assign, fed, chan, hand, written, ended, reports, got, hist, phase>>
P == 0..(Parts - 1)
Done == 0   \* the end marker; records are 1..Records
Assignments == IF RoundRobin THEN {[k \in 1..Records |-> (k - 1) % Parts]} ELSE [1..Records -> P]
Active == IF AllParts THEN P ELSE {assign[k] : k \in 1..fed}
Init == /\ assign \in Assignments /\ fed = 0 /\ chan = [p \in P |-> <<>>] /\ hand = [p \in P |-> <<>>]
        /\ written = [p \in P |-> <<>>] /\ ended = {} /\ reports = <<>> /\ got = {} /\ hist = <<>> /\ phase = "feed"
Feed == /\ phase = "feed" /\ fed < Records
        /\ LET p == assign[fed + 1] IN Len(chan[p]) < Cap /\ chan' = [chan EXCEPT ![p] = Append(@, fed + 1)]
        /\ fed' = fed + 1 /\ hist' = Append(hist, -1)
        /\ UNCHANGED <<assign, hand, written, ended, reports, got, phase>>
(* end markers go out one by one, each may wait for room *)
Sent(p) == p \in ended \/ Len(SelectSeq(hand[p] \o chan[p], LAMBDA x : x = Done)) > 0
Finish(p) == /\ fed = Records /\ p \in Active /\ ~Sent(p) /\ Len(chan[p]) < Cap
             /\ chan' = [chan EXCEPT ![p] = Append(@, Done)] /\ phase' = "join"
             /\ UNCHANGED <<assign, fed, hand, written, ended, reports, got, hist>>
Fetch(p) == /\ p \notin ended /\ hand[p] = <<>> /\ chan[p] # <<>>
            /\ hand' = [hand EXCEPT ![p] = <<Head(chan[p])>>] /\ chan' = [chan EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<assign, fed, written, ended, reports, got, hist, phase>>
Write(p) == /\ hand[p] # <<>> /\ hand[p][1] # Done
            /\ written' = [written EXCEPT ![p] = Append(@, hand[p][1])] /\ hand' = [hand EXCEPT ![p] = <<>>]
            /\ hist' = Append(hist, p)
            /\ UNCHANGED <<assign, fed, chan, ended, reports, got, phase>>
Close(p) == /\ hand[p] # <<>> /\ hand[p][1] = Done /\ p \notin ended
            /\ ended' = ended \cup {p} /\ reports' = Append(reports, p) /\ hand' = [hand EXCEPT ![p] = <<>>]
            /\ UNCHANGED <<assign, fed, chan, written, got, hist, phase>>
Collect == /\ reports # <<>> /\ got' = got \cup {Head(reports)} /\ reports' = Tail(reports)
           /\ UNCHANGED <<assign, fed, chan, hand, written, ended, hist, phase>>
Return == /\ fed = Records /\ phase # "done" /\ got = Active /\ (AllParts => got = P)
          /\ phase' = "done" /\ PrintT(<<"BEH", ToJson([assign |-> assign, steps |-> hist])>>)
          /\ UNCHANGED <<assign, fed, chan, hand, written, ended, reports, got, hist>>
Next == Feed \/ Collect \/ Return \/ \E p \in P : Finish(p) \/ Fetch(p) \/ Write(p) \/ Close(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Mine(p) == SelectSeq([k \in 1..Records |-> k], LAMBDA k : assign[k] = p)
OrderInv == \A p \in P : IsPrefix(written[p], Mine(p))
CompleteInv == phase = "done" => \A p \in P : written[p] = Mine(p)
NoDeadlock == phase = "done" \/ ENABLED Next
Terminates == <>(phase = "done")
=======================================================================
