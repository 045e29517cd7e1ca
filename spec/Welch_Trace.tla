---------------------------- MODULE Welch_Trace -----------------------------
EXTENDS Welch, TraceKit
VARIABLES l, bad
Win(e) == IF e.w = <<>> THEN Hann(e.n) ELSE [j \in 1..Len(e.w) |-> 10000 * e.w[j]]
W2(e) == LET w == Win(e) IN SumI(LAMBDA j : RoundDiv(w[j] * w[j], 1000000), 1, e.n)   \* hundredths
\* recorded value in hundredths of the unscaled density; through the class the
\* density is divided by rate * sum of squares of the window, and recorded
\* multiplied by 1000 * rate
Got(e, q) == IF e.scaled THEN MulDivS(q, W2(e), 1000) ELSE q
Slack(e, tol, v) == tol + Abs(v) \div 500 + (IF e.scaled THEN W2(e) \div 1000 ELSE 0)
\* stride and segment length from seconds; overlap is rational <<num, den>> or <<>>
Overlap(e) == IF e.ov = <<>> THEN e.n \div 2 ELSE (e.ov[1] * e.rate) \div e.ov[2]
Stride(e) == IF e.s > 0 THEN e.s ELSE e.n - Overlap(e)

PsdClause(e) ==
  IF e.x_sh # e.out_sh /\ (Len(e.out_sh) # Len(e.x_sh) \/ \E i \in 1..(Len(e.x_sh) - 1) : e.out_sh[i] # e.x_sh[i]) THEN "layout of the result"
  ELSE IF Last(e.out_sh) # Bins(e.n) THEN "number of bins"
  ELSE LET w == Win(e)  st == Stride(e) IN
    IF \E i \in 0..(Count(e.x_sh) - 1) :
         LET p == Psd(Row(e.x_d, e.x_sh, i), e.n, st, w, e.fast, e.median)  o == Row(e.out_d, e.out_sh, i) IN
         \E k \in 1..Bins(e.n) : ~Near(Got(e, o[k]), p[k][1], Slack(e, p[k][2], p[k][1]))
    THEN "spectral density" ELSE ""
Density(e) ==
  IF ~PsdOk(e.x_sh, e.n) THEN IF e.err = "" THEN "unsupported request accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE PsdClause(e)
Cross(e) ==
  IF ~CsdOk(e.x_sh, e.y_sh, e.n) THEN IF e.err = "" THEN "unsupported request accepted" ELSE ""
  ELSE IF ~e.fast THEN IF e.err = "" THEN "unsupported request accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.out_sh # Append(SubSeq(e.x_sh, 1, Len(e.x_sh) - 1), Bins(e.n)) THEN "layout of the result"
  ELSE LET w == Win(e)  st == Stride(e) IN
    IF \E i \in 0..(Count(e.x_sh) - 1) :
         LET c == Csd(Row(e.x_d, e.x_sh, i), Row(e.y_d, e.y_sh, Partner(e.x_sh, e.y_sh, i)), e.n, st, w, e.median)
             re == Row(e.out_d, e.out_sh, i)  im == Row(e.outi_d, e.out_sh, i) IN
         \E k \in 1..Bins(e.n) : \/ ~Near(Got(e, re[k]), c[k][1], Slack(e, c[k][3], c[k][1]))
                                 \/ ~Near(Got(e, im[k]), c[k][2], Slack(e, c[k][3], c[k][2]))
    THEN "cross spectral density" ELSE ""
\* construction of the transform
Make(e) == LET badov == e.ov # <<>> /\ e.ov[1] * e.rate >= e.n * e.ov[2] IN
  IF badov \/ e.badavg \/ (e.w # <<>> /\ Len(e.w) # e.n)
  THEN IF e.err = "" THEN "invalid settings accepted" ELSE ""
  ELSE IF e.err # "" THEN "valid settings refused" ELSE ""
\* a fast density recorded next to the exact one, default window
Agree(e) == IF e.err # "" THEN "call raised"
  ELSE IF \E i \in 1..Len(e.a) : ~Near(e.a[i], e.b[i], 2 + Abs(e.a[i]) \div 5000) THEN "fast and exact variants differ above the two lowest bins" ELSE ""
\* each series alone gives the same as within the batch (recorded exactly scaled)
Alone(e) == IF e.err # "" THEN "call raised"
  ELSE IF ~NearSeq(e.a, e.b, 3) THEN "series influence each other" ELSE ""
\* the segments of a series whose period is the stride are all the same, so that
\* the mean of their periodograms is the median's value before its correction:
\* ratio of the two aggregates, in millionths, bin by bin
Periodic(e) == IF e.err # "" THEN "call raised"
  ELSE LET b == FineBias(NSeg(e.len, e.n, e.s)) IN
    IF \E i \in 1..Len(e.ratio) : ~Near(e.ratio[i], b, 100) THEN "bias correction of the median" ELSE ""
Judge(e) == CASE e.op = "psd" -> Density(e) [] e.op = "csd" -> Cross(e) [] e.op = "make" -> Make(e)
              [] e.op = "agree" -> Agree(e) [] e.op = "alone" -> Alone(e)
              [] e.op = "periodic" -> Periodic(e)
              [] e.op = "refuse" -> Refusal(e.err)
              [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
