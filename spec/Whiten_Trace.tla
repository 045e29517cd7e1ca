---------------------------- MODULE Whiten_Trace ----------------------------
EXTENDS Whiten, TraceKit
VARIABLES l, bad
Win(e) == IF e.win # <<>> THEN [j \in 1..Len(e.win) |-> 1000 * e.win[j]]
          ELSE IF e.odd THEN Hann((e.fd[1] * e.rate) \div e.fd[2])   \* a window of the whole duration
          ELSE Hann(2 * Pad(e.fd, e.rate))
PadOf(e) == IF e.win # <<>> THEN Len(e.win) \div 2 ELSE Pad(e.fd, e.rate)
Amps(e, b, c) ==
  LET f == Last(e.a_sh)
      o == IF Len(e.a_sh) = 1 THEN 0 ELSE IF Len(e.a_sh) = 2 THEN c * f ELSE (b * e.a_sh[2] + c) * f
  IN SubSeq(e.a, o + 1, o + f)
Whitening(e) ==
  LET B == e.x_sh[1]  C == e.x_sh[2]  n == e.x_sh[3]  pad == PadOf(e)
      cut == IF e.crop THEN pad ELSE 0 IN
  IF e.wronglen \/ (n <= 2 * pad) THEN IF e.err = "" THEN "data of unsuitable length accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.out_sh # <<B, C, n - 2 * cut>> THEN "length of the result"
  ELSE IF ~e.single THEN "result is not single precision"
  ELSE LET w == Win(e)  m == n - 2 * cut IN
    IF \E b \in 0..(B - 1) : \E c \in 0..(C - 1) :
         LET x == SubSeq(e.x_d, (b * C + c) * n + 1, (b * C + c + 1) * n)
             \* a flat PSD of another length stays flat
             av == Amps(e, b, c)
             amps == IF Len(av) = Bins(n) THEN av ELSE [k \in 1..Bins(n) |-> av[1]]
             y == Whitened(x, Filter(amps, n, e.rate, e.hp, e.lp, w), e.rate)
             tol == 6 + RoundDiv(8 * Norm(e.rate), 1000)
         IN \E i \in 1..m : ~Near(e.out_d[(b * C + c) * m + i], y[i + cut], tol + Abs(y[i + cut]) \div 300)
    THEN "whitened data" ELSE ""
\* two ways of getting the same numbers
Same(e) == IF e.err # "" THEN "call raised"
  ELSE IF e.a_sh # e.b_sh THEN e.what \o ": shape"
  ELSE IF ~NearSeq(e.a_d, e.b_d, 4) THEN e.what ELSE ""
Refused(e) == IF e.err = "" THEN "unsuitable request accepted" ELSE ""
Judge(e) == CASE e.op = "whiten" -> Whitening(e) [] e.op = "same" -> Same(e) [] e.op = "refused" -> Refused(e)
              [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
