----------------------------- MODULE Retry -----------------------------
(* One query of the distributed client when servers may fail: every attempt asks all servers, waits for all of    *)
(* them, and counts only if none failed; otherwise it is repeated until the configured number of attempts is used  *)
(* up, and then the caller gets the error.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Servers, MaxAttempts
VARIABLES hist, waiting, order, part, outcome
vars == <<hist, waiting, order, part, outcome>>
(* hist: per attempt the servers that fail in it; part: servers whose data of this attempt has been merged *)
Init == hist = <<>> /\ waiting = {} /\ order = <<>> /\ part = {} /\ outcome = "none"
Attempt == /\ outcome = "none" /\ waiting = {} /\ Len(hist) < MaxAttempts
           /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # {})
           /\ \E f \in SUBSET Servers : hist' = Append(hist, f)
           /\ waiting' = Servers /\ part' = {} /\ UNCHANGED <<order, outcome>>
Reply(s) == /\ s \in waiting /\ waiting' = waiting \ {s} /\ order' = Append(order, s)
            /\ part' = (IF s \in hist[Len(hist)] THEN part ELSE part \cup {s})
            /\ UNCHANGED <<hist, outcome>>
Return == /\ outcome = "none" /\ waiting = {} /\ hist # <<>>
          /\ (IF hist[Len(hist)] = {} THEN TRUE ELSE Len(hist) = MaxAttempts)
          /\ outcome' = (IF hist[Len(hist)] = {} THEN "answer" ELSE "error")
          /\ PrintT(<<"BEH", ToJson([hist |-> [k \in 1..Len(hist) |-> SetToSeq(hist[k])], order |-> order, outcome |-> outcome'])>>)
          /\ UNCHANGED <<hist, waiting, order, part>>
Next == Attempt \/ (\E s \in Servers : Reply(s)) \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoPartialData == outcome = "answer" => part = Servers
ErrorOnlyWhenExhausted == outcome = "error" => Len(hist) = MaxAttempts /\ \A k \in 1..Len(hist) : hist[k] # {}
NothingLeftBehind == outcome # "none" => waiting = {}
NeverHangs == <>(outcome # "none")
=======================================================================
