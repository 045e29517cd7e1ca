------------------------ MODULE OnlineAverager_Trace ------------------------
EXTENDS OnlineAverager, TraceKit
VARIABLES l, bad
tvars == <<cfg, st, out, hist, done, l, bad>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)

Preds(e) == [i \in 1..e.b |-> [ch \in 1..cfg.chans |-> [j \in 1..e.len |->
               At3(e.u, cfg.chans, e.len, i - 1, ch - 1, j - 1)]]]
\* recorded values are Q * value; value = sum / n: n * recorded = Q * sum
Matches(rec, want, n, q) ==
  \A i \in 1..Len(rec) : Near(n * rec[i], q * want[i], n)
Flat(x, n, k) == [m \in 1..(n * k) |-> x[(m - 1) \div k + 1][((m - 1) % k) + 1]]

TNew == /\ Is("new")
        /\ cfg' = E.cfg
        /\ st' = [s \in Streams |-> Blank(E.cfg)]
        /\ hist' = [s \in Streams |-> <<>>]
        /\ done' = [s \in Streams |-> 0]
        /\ out' = <<>>
        /\ Verdict(IF E.err # "" THEN "valid configuration rejected" ELSE "")
TRestart == Is("restart") /\ Restart(E.stream) /\ Verdict("")
TPush ==
  /\ Is("push")
  /\ Push(E.stream, Preds(E))
  /\ LET m == E.b * cfg.u IN
     Verdict(
       IF E.err # "" THEN "call raised"
       ELSE IF E.out_sh # <<cfg.chans, m>> THEN "output shape"
       ELSE IF ~Matches(E.out_d, Flat(out', cfg.chans, m), cfg.n, E.q) THEN "output is not the average of the overlapping predictions"
       ELSE IF E.state_sh # <<cfg.chans, Open(cfg)>> THEN "state shape"
       ELSE IF ~Matches(E.state_d, Flat(st'[E.stream], cfg.chans, Open(cfg)), cfg.n, E.q) THEN "returned state"
       ELSE IF E.mutated THEN "arguments modified in place"
       ELSE "")
TCrash == Is("crash") /\ UNCHANGED <<cfg, st, out, hist, done>> /\ Verdict("unexpected exception")
TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad)
           /\ UNCHANGED <<cfg, st, out, hist, done, bad>>
TInit == cfg = [none |-> TRUE] /\ st = <<>> /\ out = <<>> /\ hist = <<>> /\ done = <<>> /\ l = 1 /\ bad = <<>>
TSpec == TInit /\ [][TNew \/ TRestart \/ TPush \/ TCrash \/ TFinish]_tvars
\* the design-level property, evaluated along every recorded execution
Averages == (l > 1 /\ l <= Len(Trace) + 1 /\ Trace[l - 1].op = "push") =>
               ReturnsAverages(Trace[l - 1].stream, Trace[l - 1].b)
=============================================================================
