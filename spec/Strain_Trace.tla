----------------------------- MODULE Strain_Trace -----------------------------
(* Observed strain of a batch: every event carries the sources, the detector *)
(* tensors and vertices (metres), the sample rate and the polarizations, and *)
(* the strain scaled by 1000; "project" events name the detectors instead.   *)
EXTENDS Antenna, TraceKit
VARIABLES l, bad
vars == <<l, bad>>
\* strain of one detector at the geocentre, thousandths: resp[p] scaled by US
Weighted(resp, i, hs) == [t \in 1..Len(hs[1]) |-> RoundDiv(SumI(LAMBDA p : resp[p][i] * hs[p][t], 1, Len(hs)), 10)]
Theta(dec) == <<dec[2] - 4 * dec[1], 4 * dec[2]>>
\* shifts that the finite precision of this arithmetic leaves open
Shifts(th, ph, v, sr) == LET d == Delay(th, ph, v, sr)  k == DelayTol(v, sr) IN
  IF v = <<0, 0, 0>> THEN {0} ELSE Trunc(d - k)..Trunc(d + k)
Peak(hs) == FoldLeft(LAMBDA m, h : m + FoldLeft(LAMBDA q, v : MaxI(q, Abs(v)), 0, h), 0, hs)
StrainOk(e, Ds, ds, vs) ==
  LET B == Len(e.dec)  M == Len(e.modes)  I == Len(Ds)  n == e.n IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # <<B, I, n>> THEN "shape of the strain"
  ELSE IF \E b \in 1..B :
    LET th == Theta(e.dec[b])
        R == TLCEval(Responses(e.modes, th, e.ps[b], e.ph[b], Ds, ds))
        hs == [p \in 1..M |-> [t \in 1..n |-> e.h[p][(b - 1) * n + t]]]
    IN \E i \in 1..I :
      LET w == TLCEval(Weighted(R, i, hs))
          y == [t \in 1..n |-> At3(e.y_d, I, n, b - 1, i - 1, t - 1)]
          tol == 3 + (Peak(hs) * (Size1(Ds[i]) \div ds + 2)) \div 2
      IN \A k \in Shifts(th, e.ph[b], vs[i], e.sr) : ~NearSeq(y, Roll(w, k), tol)
    THEN "not the delayed sum of weighted polarizations"
  ELSE ""
Named(e) == [i \in 1..Len(e.names) |-> DetTensor(Geo(e.names[i]).x, Geo(e.names[i]).y)]
Judge(e) ==
  CASE e.op = "strain" -> StrainOk(e, e.tensors, 1, e.vertices)
    [] e.op = "project" -> LET v == StrainOk(e, Named(e), 10000, [i \in 1..Len(e.names) |-> Geo(e.names[i]).v]) IN
         IF v # "" THEN v ELSE IF e.same # TRUE THEN "projector differs from the function" ELSE ""
    [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
