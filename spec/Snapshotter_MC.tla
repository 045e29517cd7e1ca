--------------------------- MODULE Snapshotter_MC ---------------------------
(* Exhaustive design check of Snapshotter and source of stimuli: every       *)
(* schedule of Push/Restart over two streams, for every small configuration. *)
EXTENDS Snapshotter, Json, CSV, IOUtils

VARIABLES sched, last
mcvars == <<cfg, st, out, hist, sched, last>>

MaxLen == IF IOEnv.TIER = "thorough" THEN 5 ELSE 3
MaxSize == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4

Splits(n) == {<<>>} \cup {sp \in UNION {[1..k -> 1..n] : k \in 1..n} : SumSeq(sp) = n}

Configs ==
  {c \in [chans : 1..2, size : 2..MaxSize, stride : 1..(MaxSize - 1), batch : 1..3,
          split : UNION {Splits(n) : n \in 1..2}] : Valid(c)}

Init ==
  /\ \E c \in Configs :
       /\ cfg = c
       /\ st = [s \in Streams |-> Blank(c)]
       /\ hist = [s \in Streams |-> Empty(c)]
  /\ out = <<>>
  /\ sched = <<>> /\ last = ""

\* sample values are unique in (stream, channel, time)
Sample(s, ch, t) == 1000 * s + 100 * ch + t
Fresh(s) == [ch \in 1..cfg.chans |->
               [j \in 1..Update(cfg) |-> Sample(s, ch, Len(hist[s][ch]) + j)]]

Next ==
  /\ Len(sched) < MaxLen
  /\ \E s \in Streams :
       \/ Push(s, Fresh(s)) /\ sched' = Append(sched, <<"push", s>>) /\ last' = "push"
       \/ Restart(s) /\ sched' = Append(sched, <<"restart", s>>) /\ last' = "restart"

Spec == Init /\ [][Next]_mcvars

Offline == last = "push" =>
             LET s == sched[Len(sched)][2] IN StreamEqualsOffline(s)

\* streams never influence each other: a restart or push of one leaves the
\* other's retained samples alone
Isolation ==
  [][\A s \in Streams : (sched' # sched /\ sched'[Len(sched')][2] # s) => st'[s] = st[s]]_mcvars

\* behaviours for the conformance driver
Emit ==
  (Len(sched) = MaxLen /\ cfg.split \in {<<>>, <<1, 1>>, <<2>>}) =>
     CSVWrite("%1$s", <<ToJson([cfg |-> cfg, sched |-> sched])>>, IOEnv.STIM)
=============================================================================
