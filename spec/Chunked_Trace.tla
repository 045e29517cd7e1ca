---------------------------- MODULE Chunked_Trace ---------------------------
(* Sample p (row-major) of the q-th chunk has the value q * 100000 + p.      *)
EXTENDS Chunked, TraceKit
VARIABLES l, bad
tvars == <<cfg, cur, q, served, total, phase, l, bad>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)
Pos(v) == v - q * 100000
InChunk(v) == Pos(v) >= 0 /\ Pos(v) < cur[1] * cur[2] * cur[3]
First(e, i, ch) == At3(e.d, cur[2], cfg.k, i - 1, ch - 1, 0)
Draws(e) == [i \in 1..cfg.b |-> [ch \in 1..cur[2] |->
               <<ElementOf(cur, Pos(First(e, i, ch))), TimeOf(cur, Pos(First(e, i, ch)))>>]]
BatchClause(e) ==
  IF ~Due THEN "more batches than promised from this chunk"
  ELSE IF e.sh # <<cfg.b, cur[2], cfg.k>> THEN "batch shape"
  ELSE IF \E i \in 1..Len(e.d) : ~InChunk(e.d[i]) THEN "sample is not from the current chunk"
  ELSE IF \E i \in 1..cfg.b : \E ch \in 1..cur[2] : ChannelOf(cur, Pos(First(e, i, ch))) # ch THEN "kernel of another channel"
  ELSE IF \E i \in 1..cfg.b : \E ch \in 1..cur[2] : TimeOf(cur, Pos(First(e, i, ch))) > cur[3] - cfg.k THEN "kernel straddles a boundary"
  ELSE IF \E i \in 1..cfg.b : \E ch \in 1..cur[2] : \E j \in 0..(cfg.k - 1) :
            At3(e.d, cur[2], cfg.k, i - 1, ch - 1, j) # First(e, i, ch) + j THEN "kernel is not contiguous"
  ELSE IF ~DrawOk(Draws(e)) THEN "coincident channels differ in element or time"
  ELSE ""
TNew == Is("new") /\ Make(Ev.cfg) /\
        Verdict(IF Ev.err # "" THEN "constructor raised"
                ELSE IF Ev.len >= 0 /\ Ev.len # Ev.nchunks * Ev.cfg.bpc THEN "reported length" ELSE "")
TPull == Is("pull") /\ Pull(Ev.shape) /\
         Verdict(IF ~CanPull THEN "next chunk requested before this one was used up" ELSE "")
TBatch == Is("batch") /\ Serve /\ Verdict(BatchClause(Ev))
TEnd == Is("end") /\ End /\ Verdict(IF ~CanEnd THEN "iteration ended early" ELSE IF Ev.pulled # Ev.nchunks THEN "source not exhausted" ELSE "")
TFail == Is("fail") /\ Fail /\ Verdict(IF TooShort /\ served = 0 THEN "" ELSE "iteration raised")
\* joint counts of <<element, start>> for the first and last channel
TPlan == Is("hist") /\ UNCHANGED vars /\
  LET n == SumSeq(Ev.counts)  m == Ev.n * Ev.starts IN
  Verdict(IF Len(Ev.counts) # m THEN "draw outside the chunk"
          ELSE IF \E i \in 1..m : Ev.counts[i] = 0 THEN "an element or start is never drawn"
          ELSE IF \E i \in 1..m : LET d == Ev.counts[i] - (n \div m) IN d * d > 45 * (n \div m) + 200 THEN "draws are not uniform"
          ELSE IF Ev.same_el * Ev.n > 2 * n + 40 * Ev.n /\ Ev.n > 2 THEN "channels or batch elements share their element"
          ELSE IF Ev.same_t * Ev.starts > 2 * n + 40 * Ev.starts /\ Ev.starts > 2 THEN "channels or batch elements share their time"
          ELSE "")
TCrash == Is("crash") /\ UNCHANGED vars /\ Verdict("unexpected exception")
TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<vars, bad>>
TInit == /\ cfg = [none |-> TRUE] /\ cur = <<>> /\ q = 0 /\ served = 0 /\ total = 0 /\ phase = "end" /\ l = 1 /\ bad = <<>>
TSpec == TInit /\ [][TNew \/ TPull \/ TBatch \/ TEnd \/ TFail \/ TPlan \/ TCrash \/ TFinish]_tvars
=============================================================================
