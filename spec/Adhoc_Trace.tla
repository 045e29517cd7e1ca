------------------------------ MODULE Adhoc_Trace ------------------------------
(* Events: sg and rd (one batch through a generator), length (a duration     *)
(* that is no whole number of samples).                                      *)
EXTENDS Adhoc, TraceKit
VARIABLES l, bad
vars == <<l, bad>>
RowOf(d, n, b) == SubSeq(d, (b - 1) * n + 1, b * n)
First(ss) == FoldLeft(LAMBDA a, s : IF a # "" THEN a ELSE s, "", ss)
SgRow(r, fs, n, x, y) ==
  IF r.en = r.ed /\ \E k \in 1..n : y[k] # 0 THEN "cross polarization at eccentricity one"
  ELSE IF ~NearSeq(x, SgPlus(r, fs, n), SgTol(SgPlusAmp(r))) THEN "plus polarization"
  ELSE IF ~NearSeq(y, SgCross(r, fs, n), SgTol(SgCrossAmp(r))) THEN "cross polarization" ELSE ""
RdRow(r, fs, n, x, y) ==
  IF ~NearSeq(x, RdPlus(r, fs, n), RdTol(RdPlusAmp(r))) THEN "plus polarization"
  ELSE IF ~NearSeq(y, RdCross(r, fs, n), RdTol(RdCrossAmp(r))) THEN "cross polarization" ELSE ""
Batch(e, Judge1(_, _, _, _, _)) ==
  LET B == Len(e.rows)  n == Samples(e.dn, e.dd, e.fs) IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.p_sh # <<B, n>> \/ e.c_sh # <<B, n>> THEN "shape of the waveforms"
  ELSE LET bd == First([b \in 1..B |-> Judge1(e.rows[b], e.fs, n, RowOf(e.p_d, n, b), RowOf(e.c_d, n, b))]) IN
  IF bd # "" THEN bd
  ELSE IF ~NearSeq(e.p1_d, e.p_d, e.tol) \/ ~NearSeq(e.c1_d, e.c_d, e.tol) THEN "depends on the other rows" ELSE ""
LenOk(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.p_sh # <<e.b, Samples(e.dn, e.dd, e.fs)>> \/ e.c_sh # e.p_sh THEN "shape of the waveforms"
  ELSE IF ~e.finite THEN "waveform is not finite" ELSE ""
Judge(e) == CASE e.op = "sg" -> Batch(e, SgRow)
              [] e.op = "rd" -> Batch(e, RdRow)
              [] e.op = "length" -> LenOk(e)
              [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
