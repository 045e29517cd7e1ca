----------------------------- MODULE Augment_Trace ----------------------------
(* "aug": one call of one augmentation. "stat": one batch of s series        *)
(* augmented t times (t calls, or one call with the batch repeated).         *)
EXTENDS Augment, TraceKit
VARIABLES l, bad
vars == <<l, bad>>
Row(d, n, r) == SubSeq(d, (r - 1) * n + 1, r * n)
AugOk(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.y_sh # e.x_sh THEN "shape changed"
  ELSE LET n == e.x_sh[Len(e.x_sh)]  R == IF n = 0 THEN 0 ELSE ProdSeq(e.x_sh) \div n IN
  IF \E r \in 1..R : Row(e.y_d, n, r) \notin Outcomes(e.kind, e.p, Row(e.x_d, n, r)) THEN "series neither kept nor flipped as a whole"
  ELSE ""
StatOk(e) ==
  LET n == e.n  S == e.s  T == e.t  p == e.p[1]  q == e.p[2]
      y(t, s) == SubSeq(e.y_d, ((t - 1) * S + s - 1) * n + 1, ((t - 1) * S + s) * n)
      X == [s \in 1..S |-> Row(e.x_d, n, s)]
      F == TLCEval([t \in 1..T |-> [s \in 1..S |-> IF y(t, s) = X[s] THEN 0 ELSE IF y(t, s) = Flip(e.kind, X[s]) THEN 1 ELSE 2]])
  IN IF e.err # "" THEN "call raised"
  ELSE IF Len(e.y_d) # T * S * n THEN "shape changed"
  ELSE IF \E t \in 1..T : \E s \in 1..S : F[t][s] = 2 THEN "series neither kept nor flipped as a whole"
  ELSE IF \E s \in 1..S : ~Plausible(SumI(LAMBDA t : F[t][s], 1, T), p, q, T) THEN "flipped more or less often than configured"
  ELSE IF ~Plausible(SumI(LAMBDA t : SumSeq(F[t]), 1, T), p, q, S * T) THEN "flipped more or less often than configured"
  ELSE IF \E s, r \in 1..S : s < r /\ ~Plausible(SumI(LAMBDA t : F[t][s] * F[t][r], 1, T), p * p, q * q, T) THEN "series are not decided independently"
  ELSE IF \E s \in 1..S : ~Plausible(SumI(LAMBDA t : F[t][s] * F[t + 1][s], 1, T - 1), p * p, q * q, T - 1) THEN "calls are not decided independently"
  ELSE ""
Judge(e) == CASE e.op = "aug" -> AugOk(e) [] e.op = "stat" -> StatOk(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
