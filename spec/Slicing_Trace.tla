---------------------------- MODULE Slicing_Trace ---------------------------
EXTENDS Slicing, TraceKit
VARIABLES l, bad

Unfold(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.out_sh # UnfoldShape(e.x_sh, e.k, e.s) THEN "unfolded shape"
  ELSE IF e.out_d # UnfoldData(e.x_sh, e.k, e.s) THEN "unfolded windows"
  ELSE IF ~e.drop /\ e.rem_sh # RemShape(e.x_sh, e.k, e.s) THEN "remainder shape"
  ELSE IF ~e.drop /\ e.rem_d # RemData(e.x_sh, e.k, e.s) THEN "remainder"
  ELSE IF e.dtype_changed THEN "precision changed"
  ELSE IF e.mutated THEN "input modified"
  ELSE ""

Slice(e) ==
  IF ~SliceOk(e.x_sh, e.idx_sh) THEN IF e.err = "" THEN "unsupported request accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.out_sh # SliceShape(e.x_sh, e.idx_sh, e.k) THEN "sliced shape"
  ELSE IF e.out_d # SliceData(e.x_sh, e.idx_sh, e.idx_d, e.k) THEN "sliced kernels"
  ELSE IF e.dtype_changed THEN "precision changed"
  ELSE IF e.mutated THEN "input modified"
  ELSE ""

\* start positions recovered from the first sample of every kernel
Starts(e) ==
  LET C == Chans(e.x_sh)  T == LastE(e.x_sh)  B == e.out_sh[1]
      base(b, c) == IF Len(e.x_sh) = 1 THEN 0 ELSE IF Len(e.x_sh) = 2 THEN c * T ELSE (b * C + c) * T
  IN  [b \in 1..B |-> [c \in 1..C |-> e.out_d[((b - 1) * C + c - 1) * e.k + 1] - base(b - 1, c - 1)]]

Sample(e) ==
  LET T == LastE(e.x_sh)
      off == IF Len(e.x_sh) = 1 THEN <<>> ELSE e.off
      n == IF Len(e.x_sh) = 3 THEN e.x_sh[1] ELSE e.n
      C == Chans(e.x_sh)
      coin == e.coincident \/ Len(e.x_sh) # 2
      ish == IF coin THEN <<n>> ELSE <<n, C>>
  IN
  IF SampleRefused(e.x_sh, e.k, e.n, e.off) THEN IF e.err = "" THEN "impossible request accepted" ELSE ""
  ELSE IF e.err # "" THEN IF SampleDegenerate(e.x_sh, e.k, e.off)
                          THEN IF off = <<>> THEN "the only window that fits cannot be sampled" ELSE ""
                          ELSE "call raised"
  ELSE IF e.out_sh # SliceShape(e.x_sh, ish, e.k) THEN "sampled shape"
  ELSE LET st == Starts(e)
           idx == IF coin THEN [b \in 1..n |-> st[b][1]]
                  ELSE [m \in 1..(n * C) |-> st[(m - 1) \div C + 1][((m - 1) % C) + 1]]
       IN
       IF \E b \in 1..n : \E c \in 1..C : ~StartOk(T, e.k, off, st[b][c]) THEN "kernel outside the promised range"
       ELSE IF coin /\ \E b \in 1..n : \E c \in 1..C : st[b][c] # st[b][1] THEN "coincident kernels of one element differ in time"
       ELSE IF e.out_d # SliceData(e.x_sh, ish, idx, e.k) THEN "kernel is not a contiguous run of its channel"
       ELSE IF e.ridx /\ (e.idx_sh # ish \/ e.idx_d # idx) THEN "returned indices are not the ones used"
       ELSE IF e.mutated THEN "input modified"
       ELSE ""

\* the same draws, asked about the last window that fits (no offset given)
HistLast(e) == IF e.err # "" THEN "call raised"
               ELSE IF Hi(LastE(e.x_sh), e.k, <<>>) > 0 /\ e.last = 0 THEN "the last window that fits is never drawn" ELSE ""

\* histogram of the starts of many draws, position Lo first
Hist(e) ==
  LET T == LastE(e.x_sh)  off == IF Len(e.x_sh) = 1 THEN <<>> ELSE e.off
      lo == Lo(T, e.k, off)  hi == Hi(T, e.k, off)
      m == hi - lo  n == SumSeq(e.counts)
  IN  \* the documented promise admits the exclusive end as well
      IF e.err # "" THEN IF SampleDegenerate(e.x_sh, e.k, e.off) THEN "" ELSE "call raised"
      ELSE IF \E i \in 1..Len(e.counts) : e.counts[i] > 0 /\ ~(i - 1 >= lo /\ i - 1 <= hi) THEN "start outside the admissible range"
      ELSE IF \E i \in (lo + 1)..hi : e.counts[i] = 0 THEN "an admissible start is never drawn"
      ELSE IF \E i \in (lo + 1)..hi : LET d == e.counts[i] - (n \div m) IN d * d > 45 * (n \div m) + 200 THEN "starts are not uniform"
      ELSE IF ~e.coincident /\ Len(e.x_sh) = 2 /\ e.same * m > 3 * e.draws + 60 * m THEN "independent channels move together"
      ELSE ""

\* data too large to be written down: the shape, and spots of the result
\* <<window, series, sample, value>>
BigUnfold(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.out_sh # UnfoldShape(e.x_sh, e.k, e.s) THEN "unfolded shape"
  ELSE IF \E i \in 1..Len(e.spots) : LET p == e.spots[i] IN p[4] # UnfoldId(e.x_sh, e.k, e.s, p[1], p[2], p[3]) THEN "unfolded windows"
  ELSE IF e.rem_sh # RemShape(e.x_sh, e.k, e.s) THEN "remainder shape"
  ELSE IF \E i \in 1..Len(e.rem) : LET p == e.rem[i] IN p[3] # (p[1] + 1) * LastE(e.x_sh) - RemSize(LastE(e.x_sh), e.k, e.s) + p[2] THEN "remainder"
  ELSE ""
\* spots <<element, channel, start asked for, sample, value>>
BigSlice(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.out_sh # SliceShape(e.x_sh, e.idx_sh, e.k) THEN "sliced shape"
  ELSE IF \E i \in 1..Len(e.spots) : LET p == e.spots[i] IN
       \/ p[5] # SliceId(e.x_sh, <<1>>, [b \in 1..(p[1] + 1) |-> p[3]], p[1], p[2], p[4])
       \/ e.sampled /\ ~StartOk(LastE(e.x_sh), e.k, <<>>, p[3]) THEN "sliced kernels"
  ELSE ""

Judge(e) == CASE e.op = "unfold" -> Unfold(e)
              [] e.op = "slice"  -> Slice(e)
              [] e.op = "sample" -> Sample(e)
              [] e.op = "bigunfold" -> BigUnfold(e)
              [] e.op = "bigslice" -> BigSlice(e)
              [] e.op = "hist"   -> Hist(e)
              [] e.op = "hist_last" -> HistLast(e)
              [] OTHER -> "unexpected exception"

Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
