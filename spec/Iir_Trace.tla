------------------------------ MODULE Iir_Trace -------------------------------
(* A design is followed by calls of one filter. Data carry the scale of the  *)
(* event: x_d are integers, y_d is the output, both times that scale. The    *)
(* coefficients are those of the documented design, in millionths.           *)
EXTENDS Iir, TraceKit
VARIABLES l, bad, cur, acc
vars == <<l, bad, cur, acc>>
e == Trace[l]
D == Trace[cur]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
New == Is("new") /\ cur' = l /\ acc' = <<>> /\ Verdict(IF e.err # "" THEN "constructor raised" ELSE "")
n == e.x_sh[Len(e.x_sh)]
Rows == ProdSeq(e.x_sh) \div n
RowX(r) == SubSeq(e.x_d, (r - 1) * n + 1, r * n)
RowY(r) == SubSeq(e.y_d, (r - 1) * n + 1, r * n)
Peak(s) == FoldLeft(LAMBDA m, v : MaxI(m, Abs(v)), 0, s)
Tol(s) == 12 + Peak(s) \div D.acc
Basic == IF e.err # "" THEN "call raised" ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.x_sh THEN "shape of the output" ELSE ""
Recur == \A r \in 1..Rows : LET w == TLCEval(Filt(D.b, D.a, RowX(r), MulF)) IN NearSeq(RowY(r), w, Tol(w))
RowsCall == Is("rows") /\ UNCHANGED cur /\ acc' = Append(acc, [x |-> e.x_d, y |-> e.y_d]) /\ Verdict(
  IF Basic # "" THEN Basic
  ELSE IF ~Recur THEN "not the difference equation forward and backward"
  ELSE IF \E i \in 1..Len(acc) : acc[i].x = e.x_d /\ acc[i].y # e.y_d THEN "answer changed with history" ELSE "")
\* the third row is the first plus twice the second
Linear == Is("linear") /\ UNCHANGED <<cur, acc>> /\ Verdict(IF Basic # "" THEN Basic
  ELSE LET t == Tol(RowY(1)) + Tol(RowY(2)) IN
       IF \E i \in 1..n : ~Near(RowY(3)[i], RowY(1)[i] + 2 * RowY(2)[i], t) THEN "not linear"
  ELSE IF \E r \in 1..3 : ~NearSeq(RowY(r), SubSeq(e.alone, (r - 1) * n + 1, r * n), t) THEN "row depends on its batch" ELSE "")
\* answer to one impulse in the middle of a long series: even, and with the
\* power of the design as its spectrum. Frequencies are k / K of Nyquist.
c == n \div 2
Spectrum(k) == SumI(LAMBDA j : RoundDiv(e.y_d[j + 1] * (CosN(k * (j - c), 2 * e.K) \div 3), 1000), 0, n - 1) \div 10
Impulse == Is("impulse") /\ UNCHANGED <<cur, acc>> /\ Verdict(IF Basic # "" THEN Basic
  ELSE IF \E i \in 1..c : ~Near(e.y_d[c + 1 + i], e.y_d[c + 1 - i], 20) THEN "answer to an impulse is not even"
  ELSE IF \E i \in 1..Len(e.ks) :
    ~Near(Spectrum(e.ks[i]), 10 * Power(D.ft, D.N, D.kind, D.band, D.eps, e.ks[i], e.K), 250) THEN "not the power response of the design"
  ELSE "")
\* middle of the answer to a long constant (k = 0) or alternating (k = 1) series
\* of thousandths, for a cutoff that may be far below the rate
Steady == Is("steady") /\ UNCHANGED <<cur, acc>> /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF ~e.finite THEN "answer to a bounded series diverges"
  ELSE IF \E i \in 1..Len(e.y) : ~Near(e.y[i], (IF e.k = 1 /\ e.at[i] % 2 = 1 THEN -1 ELSE 1) * Power(D.ft, D.N, D.kind, D.band, D.eps, e.k, 1), 12)
       THEN "not the steady response of the design" ELSE "")
\* a slow filter far from the ends of a long series: running it forward and
\* then backward answers an impulse alike on both sides, and what it lets
\* through of a constant is the sum of its answer
Far == Is("far") /\ UNCHANGED <<cur, acc>> /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF \E i \in 1..Len(e.left) : ~Near(e.left[i], e.right[i], 20) THEN "not alike forward and backward in time"
  ELSE IF ~Near(e.sum, Power(D.ft, D.N, D.kind, D.band, D.eps, 0, 1), 3) THEN "part of the answer is missing" ELSE "")
\* the same probe filtered before and after everything done to the filter (calls,
\* refused ones included), to billionths of its peak
Again == Is("again") /\ UNCHANGED <<cur, acc>> /\ Verdict(
  IF e.err # "" THEN "call raised" ELSE IF e.change # 0 THEN "answer changed with history" ELSE "")
Other == l <= Len(Trace) /\ e.op \notin {"new", "rows", "linear", "impulse", "steady", "far", "again"} /\ UNCHANGED <<cur, acc>> /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0 /\ acc = <<>>
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur, acc>>
Spec == Init /\ [][New \/ RowsCall \/ Linear \/ Impulse \/ Steady \/ Far \/ Again \/ Other \/ Finish]_vars
=============================================================================
