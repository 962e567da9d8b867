--------------------------- MODULE EdgeList ---------------------------
(* One edge list line holding string features: fields separated by a delimiter, a delimiter inside a string is    *)
(* written with an escape in front.  The reader walks over the characters of the line.                            *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
CONSTANTS Chars, Delim, Esc, MaxLen, MaxStrings
VARIABLES strings, line, pos, cur, out, held
vars == <<strings, line, pos, cur, out, held>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE Join(_)
Join(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<Delim>> \o Join(Tail(ss))
Render(s) == Flatten([i \in 1..Len(s) |-> IF s[i] = Delim THEN <<Esc, Delim>> ELSE <<s[i]>>])
(* an escape right before a delimiter or the end of a string has no unambiguous rendering *)
Writable(s) == s # <<>> /\ s[Len(s)] # Esc /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = Esc /\ s[i + 1] = Delim)
Strings == {s \in UNION {[1..n -> Chars] : n \in 1..MaxLen} : Writable(s)}
Init == /\ strings \in UNION {[1..n -> Strings] : n \in 1..MaxStrings}
        /\ line = Join([i \in 1..Len(strings) |-> Render(strings[i])])
        /\ pos = 1 /\ cur = <<>> /\ out = <<>> /\ held = FALSE
        /\ PrintT(<<"BEH", ToJson([strings |-> strings, line |-> line])>>)
(* held: the previous character was an escape that may belong to a delimiter *)
Step == /\ pos <= Len(line)
        /\ LET ch == line[pos] IN
           IF held THEN IF ch = Delim THEN cur' = Append(cur, Delim) /\ held' = FALSE /\ out' = out
                        ELSE cur' = (IF ch = Esc THEN Append(cur, Esc) ELSE cur \o <<Esc, ch>>)
                             /\ held' = (ch = Esc) /\ out' = out
           ELSE IF ch = Delim THEN out' = Append(out, cur) /\ cur' = <<>> /\ held' = FALSE
           ELSE IF ch = Esc THEN held' = TRUE /\ UNCHANGED <<cur, out>>
           ELSE cur' = Append(cur, ch) /\ UNCHANGED <<out, held>>
        /\ pos' = pos + 1 /\ UNCHANGED <<strings, line>>
End == /\ pos = Len(line) + 1 /\ out' = Append(out, cur \o (IF held THEN <<Esc>> ELSE <<>>)) /\ pos' = pos + 1 /\ UNCHANGED <<strings, line, cur, held>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
RoundTrip == pos = Len(line) + 2 => out = strings
=======================================================================
