--------------------------- MODULE Pearson_Trace ------------------------------
(* e.x_sh: lead \o <<T>>; y of the same or lower rank, aligned at the right. *)
EXTENDS Pearson, TraceKit
VARIABLES l, bad
T(e) == e.x_sh[Len(e.x_sh)]
Rows(sh) == ProdSeq(sh) \div sh[Len(sh)]
Row(d, n, r) == TLCEval([k \in 1..n |-> d[r * n + k]])
Matches(e) == /\ Len(e.y_sh) <= Len(e.x_sh)
              /\ \A i \in 0..(Len(e.y_sh) - 1) : e.y_sh[Len(e.y_sh) - i] = e.x_sh[Len(e.x_sh) - i]
Run(e) ==
  IF Len(e.x_sh) > 3 \/ ~Matches(e) THEN IF e.err = "" THEN "mismatched series accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.r_sh # <<2 * e.m + 1>> \o SubSeq(e.x_sh, 1, Len(e.x_sh) - 1) THEN "shape of the result"
  ELSE IF \E r \in 0..(Rows(e.x_sh) - 1) :
         LET n == T(e)  x == Row(e.x_d, n, r)  y == Row(e.y_d, n, r % Rows(e.y_sh)) IN
         \E k \in 0..(2 * e.m) :
           LET s == Shifted(x, e.m, k) IN
           Defined(s, y) /\ ~Near(e.r_d[k * Rows(e.x_sh) + r + 1], Coef(s, y), 3)
       THEN "coefficient of a shift"
  ELSE ""
Judge(e) == CASE e.op = "run" -> Run(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
