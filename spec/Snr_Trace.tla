----------------------------- MODULE Snr_Trace ------------------------------
EXTENDS Snr, TraceKit
VARIABLES l, bad
\* bins taking part: cuts by value, or explicit masks (sequences of 0 / 1)
Bits(e) == LET n == e.h_sh[3]  b == Band(n, e.rate, e.hp, e.lp) IN
  [k \in 1..Bins(n) |-> b[k] /\ (e.hmask # <<>> => e.hmask[k] = 1) /\ (e.lmask # <<>> => e.lmask[k] = 1)]
BadMask(e) == \/ (e.hmask # <<>> /\ Len(e.hmask) # Bins(e.h_sh[3]))
              \/ (e.lmask # <<>> /\ Len(e.lmask) # Bins(e.h_sh[3]))
Tab(e) == Table(e.h_d, e.h_sh, e.w, e.w_sh, Bits(e), e.rate)
Idx(e) == (0..(e.h_sh[1] - 1)) \X (0..(e.h_sh[2] - 1))

Ifo(e) ==
  IF BadMask(e) THEN IF e.err = "" THEN "mask of wrong length accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.snr_sh # <<e.h_sh[1], e.h_sh[2]>> THEN "shape of the SNRs"
  ELSE IF e.net_sh # <<e.h_sh[1]>> THEN "shape of the network SNRs"
  ELSE LET t == Tab(e) IN
       IF \E p \in Idx(e) : ~IsRoot(At2(e.snr_d, e.h_sh[2], p[1], p[2]), t[p[1], p[2]]) THEN "SNR of an interferometer"
       ELSE IF \E b \in 0..(e.h_sh[1] - 1) : ~IsRoot(e.net_d[b + 1], Network(t, b, e.h_sh[2])) THEN "network SNR"
       ELSE ""

\* rescaled data: h * target / SNR, and the SNR recomputed from the output
Rescaled(e, targets) ==
  LET t == Tab(e)  n == e.h_sh[2] * e.h_sh[3] IN
  \E b \in 0..(e.h_sh[1] - 1) :
    LET v == Network(t, b, e.h_sh[2])                 \* 100 rho^2
        rho == SqrtS(v, 100) IN                       \* 1000 rho
    v >= 100 /\ \E i \in 1..n :
      LET want == MulDivS(e.h_d[b * n + i] * targets[b + 1] * 10, 1000, rho)   \* targets in hundredths
      IN  ~Near(e.y_d[b * n + i], want, 5 + Abs(want) \div 250)
Reweight(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.h_sh THEN "shape changed"
  ELSE IF Rescaled(e, e.targets) THEN "not scaled to the target by one factor"
  ELSE IF \E b \in 1..e.h_sh[1] : e.ok[b] /\ ~Near(e.again_d[b], e.targets[b], 2 + e.targets[b] \div 1000) THEN "SNR of the result is not the target"
  ELSE ""
Rescaler(e) ==
  LET t == Tab(e) IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.h_sh THEN "shape changed"
  ELSE IF e.rep_sh # <<e.h_sh[1]>> THEN "shape of the reported targets"
  ELSE IF e.given /\ e.rep_d # e.targets THEN "reported targets are not those given"
  ELSE IF ~e.given /\ ~e.isperm THEN "reported targets are not the batch's own SNRs permuted"
  ELSE IF Rescaled(e, e.rep_d) THEN "not scaled to the reported target by one factor"
  ELSE ""
\* origin of the target of each position over many calls (rows: positions)
Perm(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF ~e.isperm THEN "reported targets are not the batch's own SNRs permuted"
  ELSE IF \E i \in 1..Len(e.counts) : e.counts[i] = 0 THEN "a redistribution never happens"
  ELSE ""
\* flat PSD of any length: same as flat PSD of matching length
Flat(e) == IF e.err # "" THEN "call raised" ELSE IF ~NearSeq(e.a, e.b, 2) THEN "flat PSD changed by interpolation" ELSE ""

Judge(e) == CASE e.op = "ifo" -> Ifo(e) [] e.op = "reweight" -> Reweight(e) [] e.op = "rescaler" -> Rescaler(e)
              [] e.op = "perm" -> Perm(e) [] e.op = "flat" -> Flat(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
