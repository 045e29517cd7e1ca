----------------------------- MODULE Hdf5_Trace -----------------------------
EXTENDS Hdf5, TraceKit
VARIABLES cfg, l, bad    \* cfg: lens, chans, k, b, nf, mode ("all"|"files"|"none")
tvars == <<wvars, cfg, l, bad>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)

Of(e, i, ch, j) == At3(e.d, cfg.chans, cfg.k, i - 1, ch - 1, j)
Known(f) == f >= 1 /\ f <= Len(cfg.lens)
BatchClause(e) ==
  IF e.err # "" THEN "sampling raised"
  ELSE IF e.sh # <<cfg.b, cfg.chans, cfg.k>> THEN "batch shape"
  ELSE IF \E i \in 1..Len(e.d) : ~(e.d[i] >= 0 /\ e.d[i] < 2000000000 /\ Known(FileOf(e.d[i]))) THEN "sample is in none of the files"
  ELSE LET B == 1..cfg.b  C == 1..cfg.chans  v(i, ch) == Of(e, i, ch, 0) IN
    IF \E i \in B : \E ch \in C : ChanOf(v(i, ch)) # ch THEN "kernel of another channel"
    ELSE IF \E i \in B : \E ch \in C : TimeOf(v(i, ch)) > cfg.lens[FileOf(v(i, ch))] - cfg.k THEN "kernel leaves its file"
    ELSE IF \E i \in B : \E ch \in C : \E j \in 0..(cfg.k - 1) : Of(e, i, ch, j) # v(i, ch) + j THEN "kernel is not contiguous"
    ELSE IF cfg.mode # "none" /\ \E i \in B : \E ch \in C : FileOf(v(i, ch)) # FileOf(v(i, 1)) THEN "channels of one element come from different files"
    ELSE IF cfg.mode = "all" /\ \E i \in B : \E ch \in C : TimeOf(v(i, ch)) # TimeOf(v(i, 1)) THEN "coincident channels differ in time"
    ELSE IF Cardinality({FileOf(v(i, ch)) : i \in B, ch \in C}) > cfg.nf THEN "more files in a batch than configured"
    ELSE ""

TNew == Is("new") /\ cfg' = Ev.cfg /\ MakeEpoch(Ev.cfg.bpe, Ev.nw) /\
        Verdict(IF Ev.cfg.nf > Len(Ev.cfg.lens) \/ Ev.cfg.mode = "bogus"
                THEN IF Ev.err = "" THEN "invalid settings accepted" ELSE ""
                ELSE IF Ev.err # "" THEN "valid settings refused"
                ELSE IF Ev.len # Ev.cfg.bpe THEN "reported length" ELSE "")
TBatch == Is("batch") /\ UNCHANGED <<wvars, cfg>> /\ Verdict(BatchClause(Ev))
TWork == Is("work") /\ UNCHANGED cfg /\
         Verdict(IF Ev.err # "" THEN "worker raised"
                 ELSE IF Ev.w \in over THEN "worker continued after its end"
                 ELSE IF ~CanWork(Ev.w) THEN "worker produced more than its share"
                 ELSE "") /\ (IF Ev.err = "" THEN Work(Ev.w) ELSE UNCHANGED wvars)
TStop == Is("stop") /\ UNCHANGED cfg /\ Stop(Ev.w) /\
         Verdict(IF ~CanStop(Ev.w) THEN IF done[Ev.w] < FloorShare THEN "worker stopped short of its share"
                                        ELSE "batches of the epoch were lost" ELSE "")
TEpoch == Is("epoch") /\ UNCHANGED cfg /\ NextEpoch /\ Verdict(IF ~AllStopped THEN "harness: epoch not over" ELSE "")
TLoader == Is("loader") /\ UNCHANGED <<wvars, cfg>> /\
           Verdict(IF Ev.err # "" THEN "loading raised"
                   ELSE IF \E i \in 1..Len(Ev.counts) : Ev.counts[i] # cfg.bpe THEN "number of batches loaded" ELSE "")

Total2 == SumSeq(cfg.lens)
\* files[f]: draws of file f for one channel, n draws: in proportion to length
THist == Is("files") /\ UNCHANGED <<wvars, cfg>> /\
  LET n == SumSeq(Ev.counts)
      want(f) == (n * cfg.lens[f]) \div Total2
  IN Verdict(
       IF \E f \in 1..Len(cfg.lens) : Ev.counts[f] = 0 THEN "a file is never drawn"
       ELSE IF Ev.exact /\ \E f \in 1..Len(cfg.lens) :
            LET d == Ev.counts[f] - want(f) IN d * d > 45 * want(f) + 200 THEN "files are not drawn in proportion to their length"
       ELSE "")
\* starts drawn in one file
TStarts == Is("starts") /\ UNCHANGED <<wvars, cfg>> /\
  LET n == SumSeq(Ev.counts)  m == cfg.lens[Ev.file] - cfg.k + 1 IN
  Verdict(IF Len(Ev.counts) # m THEN "start outside the file"
          ELSE IF n < 40 * m THEN ""
          ELSE IF \E i \in 1..m : Ev.counts[i] = 0 THEN "an admissible start is never drawn"
          ELSE IF \E i \in 1..m : LET d == Ev.counts[i] - (n \div m) IN d * d > 45 * (n \div m) + 200 THEN "starts are not uniform"
          ELSE "")
\* how often two draws agree in time within one file; starts = their number
TSame == Is("same") /\ UNCHANGED <<wvars, cfg>> /\
  Verdict(IF Ev.n >= 100 /\ Ev.same * Ev.starts > 3 * Ev.n + 60 * Ev.starts THEN "draws that should be independent agree"
          ELSE IF Ev.n >= 100 /\ Ev.distinct_files = 0 /\ Ev.need_files THEN "channels never come from different files" ELSE "")
TCrash == Is("crash") /\ UNCHANGED <<wvars, cfg>> /\ Verdict("unexpected exception")
TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<wvars, cfg, bad>>
TInit == bpe = 0 /\ nw = 0 /\ done = (0 :> 0) /\ over = {} /\ cfg = [none |-> TRUE] /\ l = 1 /\ bad = <<>>
TSpec == TInit /\ [][TNew \/ TBatch \/ TWork \/ TStop \/ TEpoch \/ TLoader \/ THist \/ TStarts \/ TSame \/ TCrash \/ TFinish]_tvars
\* design invariants, on every recorded epoch
NoExcess == l > 1 /\ bad = <<>> => NeverTooMany
=============================================================================
