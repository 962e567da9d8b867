----------------------------- MODULE J_Upload -----------------------------
(* Verdicts on recorded uploads: what every call said, and the lines of every file found in the store after closing. *)
(* Same properties as Upload.tla.                                                                                   *)
EXTENDS Judge
VARIABLE i
(* the chunks of an operation: a write is one, lines are grouped *)
Groups(ls, n) == [g \in 1..((Len(ls) + n - 1) \div n) |-> SubSeq(ls, (g - 1) * n + 1, IF g * n < Len(ls) THEN g * n ELSE Len(ls))]
Chunks(c, o) == IF o.op = "write" THEN <<o.lines>> ELSE Groups(o.lines, c.perchunk)
Judged(c) ==
  LET F == 1..Len(c.files)
      f(x) == c.files[x].lines
      S == 1..Len(c.said)
      all == FlattenSeq([j \in S |-> Chunks(c, c.ops[j])])
      Own(h) == 1..Len(all[h])
      known == UNION {ToSet(all[h]) : h \in 1..Len(all)}
      \* lines are numbered in the order of writing, so a chunk is an interval of numbers
      chunkOf == [n \in known |-> CHOOSE h \in 1..Len(all) : n \in ToSet(all[h])]
      accepted == UNION {ToSet(c.ops[j].lines) : j \in {j \in S : c.said[j] = "ok"}}
      refused == UNION {ToSet(c.ops[j].lines) : j \in {j \in S : c.said[j] = "false" /\ c.ops[j].op = "write"}}
      found == UNION {ToSet(f(x)) : x \in F}
      Mine(n) == n \in known
      Seen(x) == {chunkOf[n] : n \in {n \in ToSet(f(x)) : Mine(n)}}
      done == c.closed # "hang" /\ c.stuck = "" IN
  Clause("torn-line", -1 \notin found) \cup
  Clause("foreign-line", \A n \in found : n = -1 \/ Mine(n) \/ (n > 1000000 /\ c.failed)) \cup
  Clause("line-lost", (done /\ ~c.failed) => accepted \subseteq found) \cup
  Clause("line-twice", \A n \in known : Cardinality({<<x, j>> \in UNION {{x} \X (1..Len(f(x))) : x \in F} : f(x)[j] = n}) <= 1) \cup
  Clause("refused-stored", refused \cap found = {}) \cup
  Clause("chunk-split", \A x \in F : \A h \in Seen(x) : ToSet(all[h]) \subseteq ToSet(f(x))) \cup
  Clause("order", \A x \in F : \A j \in 1..(Len(f(x)) - 1) : f(x)[j] < f(x)[j + 1] \/ -1 \in {f(x)[j], f(x)[j + 1]}) \cup
  Clause("file-too-long", c.perfile > 0 => \A x \in F : Cardinality(Seen(x)) <= c.perfile) \cup
  Clause("misplaced", \A x \in F : c.files[x].name = "shop/out/emb") \cup
  Clause("hangs-" \o c.stuck, c.stuck = "") \cup
  Clause("close-hangs", c.closed # "hang") \cup
  Clause("close-raises", c.closed \in {"ok", "hang"}) \cup
  Clause("refuses", ~c.failed => \A j \in S : c.said[j] = "ok" \/ c.said[j] = "hang" \/ (c.said[j] = "full" /\ ~c.roomy)) \cup
  Clause("failure-untold", c.told \/ c.stuck # "") \cup
  Clause("late-accepted", \A j \in 1..Len(c.late) : c.late[j] = "false")
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
===========================================================================
