---------------------------- MODULE Scaler_Trace ----------------------------
EXTENDS Scaler, TraceKit
VARIABLES l, bad
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)
TStart == Is("start") /\ st' = <<>> /\ UNCHANGED bad
\* buffers hold the statistics of the data of this fit
TFit == /\ Is("fit")
  /\ IF Ev.err # "" THEN st' = <<>> /\ Verdict("fit raised")
     ELSE Fit(Ev.x_d, Ev.chans, Ev.n, Ev.reg)
          /\ Verdict(IF Ev.mutated THEN "data modified"
               ELSE IF Len(Ev.mean_d) # Ev.chans \/ Len(Ev.std_d) # Ev.chans THEN "number of statistics"
               ELSE IF \E c \in 1..Ev.chans : ~Near(Ev.mean_d[c], MeanQ(st'[c]), 2) THEN "mean of the channel"
               ELSE IF \E c \in 1..Ev.chans : ~Near(Ev.std_d[c], StdQ(st'[c]), 3) THEN "population deviation of the channel"
               ELSE "")
\* channel of the i-th element (from 0) of data laid out (..., channel, time)
ChanOf(i) == IF Ev.chans = 1 THEN 1 ELSE ((i \div Ev.n) % Ev.chans) + 1
Tol(v) == 3 + Abs(v) \div 2000
TApply == /\ Is("apply") /\ UNCHANGED st
  /\ Verdict(IF Ev.err # "" THEN "apply raised"
       ELSE IF Ev.y_sh # Ev.x_sh THEN "shape changed"
       ELSE IF Ev.mutated THEN "data modified"
       ELSE IF \E i \in 1..Len(Ev.x_d) : LET a == st[ChanOf(i - 1)] IN
                 Usable(a) /\ ~Near(Ev.y_d[i], Apply(a, Ev.x_d[i]), Tol(Ev.y_d[i])) THEN "scaled value"
       ELSE IF \E i \in 1..Len(Ev.x_d) : Usable(st[ChanOf(i - 1)]) /\ ~Near(Ev.back_d[i], 1000 * Ev.x_d[i], 3) THEN "reversing does not invert"
       ELSE "")
TReverse == /\ Is("reverse") /\ UNCHANGED st
  /\ Verdict(IF Ev.err # "" THEN "reverse raised"
       ELSE IF Ev.y_sh # Ev.x_sh THEN "shape changed"
       ELSE IF \E i \in 1..Len(Ev.x_d) : LET a == st[ChanOf(i - 1)] IN
                 ~Near(Ev.y_d[i], Unscale(a, Ev.x_d[i]), 3 + 2 * Abs(Ev.x_d[i])) THEN "unscaled value"
       ELSE IF \E i \in 1..Len(Ev.x_d) : Usable(st[ChanOf(i - 1)]) /\ ~Near(Ev.back_d[i], 1000 * Ev.x_d[i], 3) THEN "scaling does not invert"
       ELSE "")
TCrash == Is("crash") /\ UNCHANGED st /\ Verdict("unexpected exception")
TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<st, bad>>
TInit == st = <<>> /\ l = 1 /\ bad = <<>>
TSpec == TInit /\ [][TStart \/ TFit \/ TApply \/ TReverse \/ TCrash \/ TFinish]_<<st, l, bad>>
=============================================================================
