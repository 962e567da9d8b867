-------------------------- MODULE TextReader --------------------------
(* The block reader: a producer reads blocks of a list of files with several threads, stitches the        *)
(* pieces (prefix / whole lines / suffix) and queues them; a consumer turns queued pieces into batches.  *)
EXTENDS Lines, Integers, TLC, Json
CONSTANTS FileSet,      \* candidate contents of one file
          MaxFiles, Lengths, Threads, Batches, Epochs, QueueSize,
          Fails         \* which block read fails, 0 for none

VARIABLES env,    \* the environment of this run: files, block length, thread count, batch size, epochs, drop_last
          fidx, off, left, stop, queue,            \* producer
          remB, remL, buf, batches, done, raised,   \* consumer
          reads                                     \* blocks read so far
vars == <<env, fidx, off, left, stop, queue, remB, remL, buf, batches, done, raised, reads>>

Least(a, b) == IF a < b THEN a ELSE b
(* one thread's piece: nl says whether the piece contains a newline *)
Piece(b) ==
  LET nls == Newlines(b) IN
  IF nls = <<>> THEN [pre |-> b, lines |-> <<>>, suf |-> <<>>, nl |-> FALSE, len |-> Len(b)]
  ELSE LET f == nls[1]
           z == nls[Len(nls)]
       IN [pre |-> SubSeq(b, 1, f - 1),
           lines |-> TextLines(SubSeq(b, f + 1, z)),
           suf |-> SubSeq(b, z + 1, Len(b)), nl |-> TRUE, len |-> Len(b)]
Join(h, c) ==
  IF c.len = 0 THEN h
  ELSE IF ~h.nl
       THEN [pre |-> h.pre \o c.pre, lines |-> c.lines, suf |-> c.suf, nl |-> c.nl, len |-> h.len + c.len]
       ELSE IF ~c.nl
            THEN [h EXCEPT !.suf = h.suf \o c.pre, !.len = h.len + c.len]
            ELSE [h EXCEPT !.lines = h.lines \o TextLines(h.suf \o c.pre) \o c.lines, !.suf = c.suf, !.len = h.len + c.len]
(* the block at an offset, read by t threads *)
Block(file, o, length, t) ==
  LET sub == length \div t
      lo(k) == o + (k - 1) * sub
      n(k) == IF k = t THEN length - (t - 1) * sub ELSE sub
      piece(k) == Piece(SubSeq(file, lo(k) + 1, Least(lo(k) + n(k), Len(file))))
  IN FoldLeft(Join, Piece(<<>>), [k \in 1..t |-> piece(k)])
Flush == [pre |-> <<>>, lines |-> <<>>, suf |-> <<>>, nl |-> TRUE, len |-> 0]
Failed == [pre |-> <<>>, lines |-> <<>>, suf |-> <<>>, nl |-> FALSE, len |-> -2]
Done == [pre |-> <<>>, lines |-> <<>>, suf |-> <<>>, nl |-> FALSE, len |-> -1]

Init ==
  /\ env \in [files : UNION {[1..n -> FileSet] : n \in 1..MaxFiles}, length : Lengths, threads : Threads,
              batch : Batches, epochs : Epochs, drop : BOOLEAN, fail : Fails]
  /\ fidx = 1 /\ off = 0 /\ left = env.epochs /\ stop = FALSE /\ queue = <<>>
  /\ remB = <<>> /\ remL = <<>> /\ buf = <<>> /\ batches = <<>> /\ done = FALSE /\ raised = FALSE /\ reads = 0

(* producer: one block, or the end of a file, an epoch, the input *)
Produce ==
  /\ ~stop /\ Len(queue) < QueueSize
  /\ LET b == Block(env.files[fidx], off, env.length, env.threads) IN
     IF reads + 1 = env.fail THEN queue' = Append(queue, Failed) /\ stop' = TRUE /\ UNCHANGED <<fidx, off, left>>
     ELSE IF b.len > 0 THEN queue' = Append(queue, b) /\ off' = off + b.len /\ UNCHANGED <<fidx, left, stop>>
     ELSE IF fidx < Len(env.files) THEN queue' = Append(queue, Flush) /\ fidx' = fidx + 1 /\ off' = 0 /\ UNCHANGED <<left, stop>>
     ELSE IF left > 1 THEN queue' = Append(queue, Flush) /\ fidx' = 1 /\ off' = 0 /\ left' = left - 1 /\ UNCHANGED stop
     ELSE queue' = Append(queue, Done) /\ stop' = TRUE /\ left' = 0 /\ UNCHANGED <<fidx, off>>
  /\ reads' = reads + 1
  /\ UNCHANGED <<env, remB, remL, buf, batches, done, raised>>

(* consumer: fill the batch from lines at hand *)
Take ==
  /\ ~done /\ remL # <<>> /\ Len(buf) < env.batch
  /\ LET n == Least(env.batch - Len(buf), Len(remL)) IN
       /\ buf' = buf \o SubSeq(remL, 1, n)
       /\ remL' = SubSeq(remL, n + 1, Len(remL))
  /\ UNCHANGED <<env, fidx, off, left, stop, queue, remB, batches, done, raised, reads>>
(* consumer: next queued piece *)
Get ==
  /\ ~done /\ remL = <<>> /\ Len(buf) < env.batch /\ queue # <<>>
  /\ LET h == Head(queue) IN
     /\ queue' = Tail(queue)
     /\ IF h.len = -2 THEN raised' = TRUE /\ done' = TRUE /\ buf' = <<>> /\ UNCHANGED <<remB, remL, batches>>
        ELSE IF h.len = -1
        THEN LET all == buf \o TextLines(remB) IN
             /\ batches' = IF all = <<>> \/ (env.drop /\ Len(all) < env.batch) THEN batches ELSE Append(batches, all)
             /\ buf' = <<>> /\ remB' = <<>> /\ done' = TRUE /\ UNCHANGED <<remL, raised>>
        ELSE LET rb == remB \o h.pre IN
             /\ IF h.nl THEN remL' = TextLines(rb) \o h.lines /\ remB' = h.suf
                ELSE remL' = remL /\ remB' = rb
             /\ UNCHANGED <<buf, batches, done, raised>>
  /\ UNCHANGED <<env, fidx, off, left, stop, reads>>
Emit ==
  /\ ~done /\ Len(buf) = env.batch
  /\ batches' = Append(batches, buf) /\ buf' = <<>>
  /\ UNCHANGED <<env, fidx, off, left, stop, queue, remB, remL, done, raised, reads>>
Next == Produce \/ Take \/ Get \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what the user is owed: a prefix at any time, everything at the end, or an error *)
PrefixInv == IsPrefix(Concat(batches) \o buf, Owed(env.files, env.epochs))
DoneInv == done /\ ~raised => Concat(batches) = SubSeq(Owed(env.files, env.epochs), 1, Kept(Len(Owed(env.files, env.epochs)), env.batch, env.drop))
ErrorInv == raised => env.fail > 0
BatchInv == BatchSizes(batches, env.batch, env.drop) /\ (\A i \in 1..Len(batches) : Len(batches[i]) < env.batch => done)
Terminates == <>done
(* enumeration of the environments, for replay in the implementation *)
GenNext == fidx = 1 /\ PrintT(<<"BEH", ToJson(env)>>) /\ fidx' = 0 /\ UNCHANGED <<env, off, left, stop, queue, remB, remL, buf, batches, done, raised, reads>>
=======================================================================
