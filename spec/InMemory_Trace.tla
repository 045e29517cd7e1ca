--------------------------- MODULE InMemory_Trace ---------------------------
(* Recorded executions of InMemoryDataset against InMemory. Checks of        *)
(* property D01 (which windows, how many, in which order) and D02 (content   *)
(* of the windows) are separate chains; the trace says which one it is for.  *)
EXTENDS InMemory, TraceKit
VARIABLES xs, ys, l, bad     \* the data of the dataset under test
tvars == <<cfg, ep, xs, ys, l, bad>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)

\* sample v of channel ch: its time (-1: not a sample of that channel)
TimeOf(ch, v) ==
  LET S == {t \in 0..(cfg.t - 1) : xs[(ch - 1) * cfg.t + t + 1] = v}
  IN  IF S = {} THEN -1 ELSE CHOOSE t \in S : TRUE
WindowOfBig(c, t) == IF t >= 0 /\ t % c.s = 0 THEN t \div c.s ELSE -1
WindowAt(t) == IF t >= 0 /\ t % cfg.s = 0 THEN t \div cfg.s ELSE -1
\* window numbers of a recorded batch (from the first sample of each kernel)
Recover(e) ==
  [i \in 1..e.sh[1] |-> [ch \in 1..cfg.c |->
     WindowAt(TimeOf(ch, At3(e.d, cfg.c, cfg.k, i - 1, ch - 1, 0)))]]
ShapeOk(e) == /\ Len(e.sh) = 3 /\ e.sh[2] = cfg.c /\ e.sh[3] = cfg.k
              /\ cfg.y => e.ysh = <<e.sh[1], cfg.k>>

\* D01: the right windows come next
BatchClause(e, r, ws) ==
  IF Len(ws) # BatchSize(cfg, r.n) THEN "batch size"
  ELSE IF \E i \in 1..Len(ws) : \E ch \in 1..cfg.c : ~(ws[i][ch] \in 0..(NK(cfg) - 1)) THEN "not a window of the data"
  ELSE IF cfg.coin /\ \E i \in 1..Len(ws) : \E ch \in 1..cfg.c : ws[i][ch] # ws[i][1] THEN "channels of one element come from different times"
  ELSE IF cfg.coin /\ ~Distinct(r.got \o ws) THEN "window delivered twice"
  ELSE IF ~IsNextBatch(cfg, r, ws) THEN "windows out of order"
  ELSE ""
\* D02: the kernels and targets are what the data hold at those windows
ContentClause(e, ws) ==
  IF \E i \in 1..Len(ws) : \E ch \in 1..cfg.c : ws[i][ch] < 0 THEN "kernel does not start at a multiple of the stride of its channel"
  ELSE IF \E i \in 1..Len(ws) : \E ch \in 1..cfg.c : ws[i][ch] * cfg.s + cfg.k > cfg.t THEN "kernel leaves the data"
  ELSE IF \E i \in 1..Len(ws) : \E ch \in 1..cfg.c : \E j \in 0..(cfg.k - 1) :
            At3(e.d, cfg.c, cfg.k, i - 1, ch - 1, j) # xs[(ch - 1) * cfg.t + ws[i][ch] * cfg.s + j + 1]
       THEN "kernel is not a contiguous run of its channel"
  ELSE IF cfg.coin /\ \E i \in 1..Len(ws) : \E ch \in 1..cfg.c : ws[i][ch] # ws[i][1] THEN "channels of one element come from different times"
  ELSE IF cfg.y /\ \E i \in 1..Len(ws) : \E j \in 0..(cfg.k - 1) :
            At2(e.yd, cfg.k, i - 1, j) # ys[ws[i][1] * cfg.s + j + 1]
       THEN "target is not aligned with its kernel"
  ELSE IF e.dtype_changed THEN "precision changed"
  ELSE ""

TNew ==
  /\ Is("new") /\ Make(Ev.cfg) /\ xs' = Ev.x /\ ys' = Ev.y
  /\ Verdict(IF Refused(Ev.cfg) THEN IF Ev.err = "" THEN "settings that cannot be honoured accepted" ELSE ""
             ELSE IF Ev.err # "" THEN "valid settings refused" ELSE "")
TLen == /\ Is("len") /\ UNCHANGED <<cfg, ep, xs, ys>>
        /\ Verdict(IF Ev.err # "" THEN "call raised"
                   ELSE IF Ev.pid = "D01" /\ Ev.val # NumBatches(cfg) THEN "reported length" ELSE "")
TOpen == Is("open") /\ Open(Ev.e) /\ UNCHANGED <<xs, ys>> /\ Verdict("")
TAbandon == Is("abandon") /\ Abandon(Ev.e) /\ UNCHANGED <<xs, ys>> /\ Verdict("")
TNext ==
  /\ Is("next") /\ UNCHANGED <<xs, ys>>
  /\ LET r == ep[Ev.e] IN
     IF Ev.err # "" \/ (~Ev.stop /\ ~ShapeOk(Ev))
     THEN /\ UNCHANGED <<cfg, ep>>
          /\ Verdict(IF Ev.err # "" THEN "iteration raised" ELSE "batch shape")
     ELSE IF Ev.stop
     THEN /\ Exhaust(Ev.e)
          /\ Verdict(IF Ev.pid = "D01" /\ ~CanExhaust(Ev.e) THEN "epoch ended early" ELSE "")
     ELSE LET ws == Recover(Ev) IN
          /\ Deliver(Ev.e, ws)
          /\ Verdict(IF Ev.pid = "D01"
                     THEN IF ~CanDeliver(Ev.e) THEN "more batches than the length" ELSE BatchClause(Ev, r, ws)
                     ELSE ContentClause(Ev, ws))
\* end of a run: the stored data are still what was passed in
TStored == /\ Is("stored") /\ UNCHANGED <<cfg, ep, xs, ys>>
           /\ Verdict(IF Ev.pid = "D02" /\ (Ev.x # xs \/ Ev.y # ys) THEN "stored data changed" ELSE "")
\* window counts of one channel over many epochs (every position possible)
THist == /\ Is("hist") /\ UNCHANGED <<cfg, ep, xs, ys>>
         /\ LET n == SumSeq(Ev.counts)  m == Len(Ev.counts) IN
            Verdict(IF Ev.err # "" THEN "iteration raised"
                    ELSE IF m # NK(cfg) THEN "drawn position outside the data"
                    ELSE IF \E i \in 1..m : Ev.counts[i] = 0 THEN "a window position is never drawn"
                    ELSE IF \E i \in 1..m : LET d == Ev.counts[i] - (n \div m) IN d * d > 45 * (n \div m) + 200 THEN "window positions are not uniform"
                    ELSE IF ~cfg.coin /\ Ev.same * m > 3 * n + 60 * m THEN "channels do not draw independently"
                    ELSE "")
\* a long dataset, whose sample i of channel ch is ch * 2^21 + i: sizes of the
\* epoch, and the rows (m from 0) that were looked at with their kernels; wins:
\* number of different windows of the first channel, and the last of them
BigStart(v, ch) == v - ch * 2097152
BigClause(e) ==
  LET c == e.cfg
      W(r, ch) == WindowOfBig(c, BigStart(At2(r.x, c.k, ch - 1, 0), ch)) IN
  IF e.err # "" THEN "iteration raised"
  ELSE IF e.pid = "D01" /\ e.sizes # [i \in 1..NumBatches(c) |-> BatchSize(c, i - 1)] THEN "batch sizes of the epoch"
  ELSE IF e.pid = "D01" /\ c.coin /\ e.wins # Total(c) THEN "windows of the epoch"
  ELSE IF \E i \in 1..Len(e.rows) : \E ch \in 1..c.c : ~(W(e.rows[i], ch) \in 0..(NK(c) - 1)) THEN "not a window of the data"
  ELSE IF c.coin /\ \E i \in 1..Len(e.rows) : \E ch \in 1..c.c : W(e.rows[i], ch) # W(e.rows[i], 1) THEN "channels of one element come from different times"
  ELSE IF e.pid = "D01" /\ ~c.shuf /\ \E i \in 1..Len(e.rows) : [ch \in 1..c.c |-> W(e.rows[i], ch)] # Ordered(c, e.rows[i].m) THEN "windows out of order"
  ELSE IF \E i \in 1..Len(e.rows) : \E ch \in 1..c.c : \E j \in 1..(c.k - 1) :
            At2(e.rows[i].x, c.k, ch - 1, j) # At2(e.rows[i].x, c.k, ch - 1, 0) + j THEN "kernel is not a contiguous run of its channel"
  ELSE IF c.y /\ \E i \in 1..Len(e.rows) : \E j \in 1..c.k :
            e.rows[i].y[j] # -BigStart(At2(e.rows[i].x, c.k, 0, j - 1), 1) - 1 THEN "target is not aligned with its kernel"
  ELSE IF e.pid = "D01" /\ c.shuf /\ (10 * e.last < 9 * NK(c) \/ e.last > NK(c) - 1) THEN "late windows are never drawn"
  ELSE ""
TBig == Is("big") /\ UNCHANGED <<cfg, ep, xs, ys>> /\ Verdict(BigClause(Ev))
TRefuse == Is("refuse") /\ UNCHANGED <<cfg, ep, xs, ys>> /\ Verdict(Refusal(Ev.err))
TCrash == Is("crash") /\ UNCHANGED <<cfg, ep, xs, ys>> /\ Verdict("unexpected exception")
TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<cfg, ep, xs, ys, bad>>
TInit == cfg = [none |-> TRUE] /\ ep = <<>> /\ xs = <<>> /\ ys = <<>> /\ l = 1 /\ bad = <<>>
TSpec == TInit /\ [][TNew \/ TLen \/ TOpen \/ TAbandon \/ TNext \/ TStored \/ THist \/ TBig \/ TRefuse \/ TCrash \/ TFinish]_tvars
=============================================================================
