------------------------- MODULE OnlineAverager_MC --------------------------
EXTENDS OnlineAverager, Json, CSV, IOUtils, TLC
VARIABLES sched
mcvars == <<cfg, st, out, hist, done, sched>>
Thorough == IOEnv.TIER = "thorough"
MaxLen == IF Thorough THEN 4 ELSE 3
Configs == [u : 1..(IF Thorough THEN 3 ELSE 2), n : 1..3, chans : 1..2, offset : 0..1]
Init == sched = <<>> /\ \E c \in Configs : Start(c)
\* values that make sums of distinct predictions differ
Val(s, p, ch, j) == (s * 7 + p * 31 + ch * 3 + 1) * (j * j + 1)
Pred(s, p) == [ch \in 1..cfg.chans |-> [j \in 1..(Span(cfg) + cfg.offset + 1) |-> Val(s, p, ch, j)]]
Next ==
  /\ Len(sched) < MaxLen
  /\ \E s \in Streams :
       \/ \E b \in 1..3 :
            /\ Push(s, [i \in 1..b |-> Pred(s, Len(hist[s]) + i)])
            /\ sched' = Append(sched, <<"push", s, b>>)
       \/ Restart(s) /\ sched' = Append(sched, <<"restart", s, 0>>)
Spec == Init /\ [][Next]_mcvars
Averages ==
  (sched # <<>> /\ sched[Len(sched)][1] = "push") =>
     ReturnsAverages(sched[Len(sched)][2], sched[Len(sched)][3])
Isolation ==
  [][\A s \in Streams : (sched' # sched /\ sched'[Len(sched')][2] # s) => st'[s] = st[s]]_mcvars
Emit == (Len(sched) = MaxLen) =>
          CSVWrite("%1$s", <<ToJson([cfg |-> cfg, sched |-> sched])>>, IOEnv.STIM)
=============================================================================
