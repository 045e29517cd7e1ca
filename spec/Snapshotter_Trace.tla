-------------------------- MODULE Snapshotter_Trace -------------------------
(* Every recorded call of the real snapshotter must be the corresponding     *)
(* action of Snapshotter, with the outputs and the returned state equal to   *)
(* the specification's.                                                      *)
EXTENDS Snapshotter, TraceKit

VARIABLES l, bad
tvars == <<cfg, st, out, hist, l, bad>>

E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)

\* channel-major update recorded as a flat row-major tensor
Unflat(d, n, m) == [ch \in 1..n |-> [j \in 1..m |-> d[(ch - 1) * m + j]]]

Groups(c) == IF c.split = <<>> THEN <<c.chans>> ELSE c.split
First(g, i) == SumSeq(SubSeq(g, 1, i - 1))

\* output tensor i holds the snapshots of channel group i
FlatGroup(c, o, i) ==
  LET g == Groups(c)  n == g[i]  k == c.size
  IN [m \in 1..(c.batch * n * k) |->
        LET z == m - 1
        IN o[z \div (n * k) + 1][First(g, i) + ((z \div k) % n) + 1][(z % k) + 1]]
FlatState(c, s) ==
  LET k == StateSize(c)
  IN [m \in 1..(c.chans * k) |-> s[(m - 1) \div k + 1][((m - 1) % k) + 1]]

TNew ==
  /\ Is("new")
  /\ LET c == E.cfg
         \* an object exists from here on exactly if the constructor returned
         use == IF Valid(c) THEN c ELSE [chans |-> 1, size |-> 2, stride |-> 1, batch |-> 1, split |-> <<>>]
     IN /\ cfg' = use
        /\ st' = [s \in Streams |-> Blank(use)]
        /\ hist' = [s \in Streams |-> Empty(use)]
        /\ out' = <<>>
        /\ Verdict(IF Valid(c) /\ E.err # "" THEN "valid configuration rejected"
                   ELSE IF ~Valid(c) /\ E.err = "" THEN "invalid configuration accepted"
                   ELSE "")

TRestart == Is("restart") /\ Restart(E.stream) /\ Verdict("")

TPush ==
  /\ Is("push")
  /\ Push(E.stream, Unflat(E.u, cfg.chans, Update(cfg)))
  /\ LET g == Groups(cfg) IN
     Verdict(
       IF E.err # "" THEN "call raised"
       ELSE IF E.n_out # Len(g) THEN "number of output tensors"
       ELSE IF \E i \in 1..Len(g) : E.outs[i].sh # <<cfg.batch, g[i], cfg.size>> THEN "snapshot shape"
       ELSE IF \E i \in 1..Len(g) : E.outs[i].d # FlatGroup(cfg, out', i) THEN "snapshot content is not the offline window"
       ELSE IF E.state_sh # <<cfg.chans, StateSize(cfg)>> THEN "state shape"
       ELSE IF E.state_d # FlatState(cfg, st'[E.stream]) THEN "returned state"
       ELSE IF E.mutated THEN "arguments modified in place"
       ELSE "")

TRefuse == Is("refuse") /\ UNCHANGED <<cfg, st, out, hist>> /\ Verdict(Refusal(E.err))
TCrash == Is("crash") /\ UNCHANGED <<cfg, st, out, hist>> /\ Verdict("unexpected exception")

TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad)
           /\ UNCHANGED <<cfg, st, out, hist, bad>>

TInit == cfg = [none |-> TRUE] /\ st = <<>> /\ out = <<>> /\ hist = <<>> /\ l = 1 /\ bad = <<>>
TNext == TNew \/ TRestart \/ TPush \/ TRefuse \/ TCrash \/ TFinish
TSpec == TInit /\ [][TNext]_tvars

\* the design-level invariant, evaluated along every recorded execution
Suffix == StateIsSuffix
Offline == (l > 1 /\ l <= Len(Trace) + 1 /\ Trace[l - 1].op = "push") => StreamEqualsOffline(Trace[l - 1].stream)
=============================================================================
