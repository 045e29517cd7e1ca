------------------------- MODULE Integrator_Trace -----------------------------
(* x: rows of e.x_sh flattened; values in units of 1 / e.unit.               *)
EXTENDS Integrator, TraceKit
VARIABLES l, bad
Last1(sh) == sh[Len(sh)]
Row(d, sh, r) == LET n == Last1(sh) IN TLCEval([k \in 1..n |-> d[r * n + k]])
Rows(sh) == ProdSeq(sh) \div Last1(sh)
Leak1(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.x_sh THEN "shape changed"
  ELSE IF \E r \in 0..(Rows(e.x_sh) - 1) :
         Row(e.y_d, e.y_sh, r) # Leaky(Row(e.x_d, e.x_sh, r), e.threshold, e.unit, e.decay, e.floor, e.count)
       THEN "does not follow the recurrence"
  ELSE ""
\* output times window is an exact small integer up to rounding: e.y_d is in
\* units of 1 / 1000; outputs up to e.skip have louder samples in their window
Hat1(e) ==
  LET w == HatWindow(e.rl) IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.x_sh THEN "shape changed"
  ELSE IF \E r \in 0..(Rows(e.x_sh) - 1) : LET x == Row(e.x_d, e.x_sh, r)  y == Row(e.y_d, e.x_sh, r) IN
         \E t \in (1 + e.skip)..Len(x) : ~Near(y[t] * w, 1000 * HatSum(x, t, w), 2 * w)
       THEN "not the mean of the most recent samples"
  ELSE ""
Refuse(e) == IF e.good = (e.err = "") THEN "" ELSE IF e.good THEN "valid mode refused" ELSE "invalid mode accepted"
Judge(e) == CASE e.op = "leaky" -> Leak1(e) [] e.op = "hat" -> Hat1(e) [] e.op = "mode" -> Refuse(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
