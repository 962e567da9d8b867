---------------------------- MODULE J_Shards ----------------------------
(* Verdicts on the batches recorded from the samplers of all workers and data-parallel shards; elements are 0..n-1,  *)
(* -1 is padding, anything lower is a row that is no element of the dataset.  Same properties as Shards.tla.         *)
EXTENDS Judge, FiniteSetsExt
VARIABLE i
Up(x, y) == IF x <= 0 THEN 0 ELSE (x + y - 1) \div y
Flat(bs) == FlattenSeq(bs)
Real(s) == SelectSeq(s, LAMBDA v : v >= 0)
All(c, what) == FoldLeft(LAMBDA a, s : a \o Flat(s[what]), <<>>, c.shards)
Times(s, v) == Len(SelectSeq(s, LAMBDA z : z = v))
Sum(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
(* the batches of one worker in the order its shards take turns *)
Turns(c, x) ==
  LET mine == SelectSeq(c.shards, LAMBDA s : s.w = x)
      most == Max({Len(mine[j].batches) : j \in 1..Len(mine)} \cup {0}) IN
  Flat([t \in 1..(most * Len(mine)) |->
        LET s == mine[((t - 1) % Len(mine)) + 1].batches
            h == ((t - 1) \div Len(mine)) + 1 IN IF h <= Len(s) THEN s[h] ELSE <<>>])
Missing(c, s) == (c.n * c.E) - Len(Real(s))
Round(c, what) ==
  LET s == All(c, what)
      want == c.E IN
  Clause("foreign-element", \A k \in 1..Len(s) : s[k] >= -1 /\ s[k] < c.n) \cup
  (IF c.style = "draws" THEN
     Clause("too-few-draws", Len(s) >= c.n * c.E) \cup Clause("too-many-draws", \A k \in 1..Len(c.shards) : (Len(c.shards[k][what]) - 1) * c.b * c.W * c.D < c.n * c.E)
   ELSE
     Clause("element-twice", \A v \in 0..(c.n - 1) : Times(s, v) <= want) \cup
     Clause("element-missing", c.drop \/ \A v \in 0..(c.n - 1) : Times(s, v) >= want) \cup
     Clause("tail-dropped", c.drop => IF c.style = "streams" THEN Missing(c, s) <= c.W * c.D * (c.b - 1)
                                      ELSE IF c.W = 1 THEN Missing(c, s) = (c.n * c.E) % c.b ELSE Missing(c, s) <= c.W * (c.b - 1)) \cup
     Clause("padding", IF c.drop \/ c.style = "strides" THEN Times(s, -1) = 0
                       ELSE IF c.style = "turns" THEN (IF c.W = 1 THEN Times(s, -1) = (Up(c.n * c.E, c.b) * c.b) - (c.n * c.E) ELSE Times(s, -1) <= c.W * (c.b - 1))
                       ELSE \A k \in 1..Len(c.shards) : Times(Flat(c.shards[k][what]), -1) < c.b)) \cup
  Clause("padding-inside", \A k \in 1..Len(c.shards) : LET q == Flat(c.shards[k][what]) IN \A j \in 1..(Len(q) - 1) : q[j] = -1 => q[j + 1] = -1) \cup
  Clause("batch-not-full", \A k \in 1..Len(c.shards) : LET q == c.shards[k][what] IN
           \A j \in 1..Len(q) : Len(q[j]) = c.b \/ (c.style = "strides" /\ Len(q[j]) > 0 /\ Len(q[j]) < c.b /\ j % Up(Len(q), c.E) = 0)) \cup
  Clause("only-padding", c.via = "prefetch" \/ \A k \in 1..Len(c.shards) : LET q == c.shards[k][what] IN \A j \in 1..Len(q) : \E h \in 1..Len(q[j]) : q[j][h] # -1)
Judged(c) ==
  Round(c, "batches") \cup {"again-" \o x : x \in Round(c, "again")} \cup
  Clause("length", c.style = "streams" \/ \A k \in 1..Len(c.shards) : c.shards[k].len = Len(c.shards[k].batches)) \cup
  (* every epoch goes through everything once *)
  Clause("epoch", (c.style = "turns" /\ c.W = 1 /\ c.via # "prefetch") =>
     LET s == Real(Turns(c, 0)) IN \A e \in 0..(c.E - 1) : Len(s) >= (e + 1) * c.n => {s[(e * c.n) + j] : j \in 1..c.n} = 0..(c.n - 1)) \cup
  Clause("order", (~c.shuffle /\ c.W = 1 /\ c.via # "prefetch" /\ c.style = "turns") =>
     \A s \in {Real(Turns(c, 0))} : \A j \in 1..(Len(s) - c.n) : s[j] = s[j + c.n]) \cup
  Clause("asked", c.asked)
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Report(i + 1, Judged(Runs[i + 1])) /\ (i + 1 < Len(Runs) \/ PrintT(<<"DONE", Len(Runs)>>))
==========================================================================
