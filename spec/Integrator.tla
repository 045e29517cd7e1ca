----------------------------- MODULE Integrator -------------------------------
(* Integrators as machines that take one sample at a time. All numbers are   *)
(* integers (a fixed common unit).                                           *)
EXTENDS Num, TLC
\* ---- running mean: the most recent w samples, zeros before the start
HatWindow(rateTimesLength) == rateTimesLength + 1
HatSum(x, t, w) == SumI(LAMBDA i : x[i], MaxI(1, t - w + 1), t)
\* ---- leaky integrator: state v
Delta(s, threshold, unit, decay, count) == IF s >= threshold THEN (IF count THEN unit ELSE s) ELSE -decay
Leak(v, d, floor) == MaxI(floor, v + d)
Leaky(x, threshold, unit, decay, floor, count) ==
  LET RECURSIVE go(_, _)
      go(i, v) == IF i > Len(x) THEN <<>>
                  ELSE LET n == Leak(v, Delta(x[i], threshold, unit, decay, count), floor)
                       IN  <<n>> \o go(i + 1, n)
  IN  TLCEval(go(1, 0))
=============================================================================
