------------------------------- MODULE Pearson --------------------------------
(* Correlation of y with the windows of x zero padded by m on both sides.    *)
EXTENDS Windows, Trig
Padded(x, m) == TLCEval(Zeros(m) \o x \o Zeros(m))
\* the window of shift k - m, k = 0 .. 2m
Shifted(x, m, k) == Window(Padded(x, m), k, Len(x))
Cov(x, y) == LET n == Len(x) IN
  n * SumI(LAMBDA i : x[i] * y[i], 1, n) - SumSeq(x) * SumSeq(y)
Defined(x, y) == Cov(x, x) > 0 /\ Cov(y, y) > 0
\* 1000 times the coefficient (|values| <= 6, length <= 12)
Coef(x, y) == MulDivS(Cov(x, y) * 1000, 100, SqrtS(Cov(x, x) * Cov(y, y), 100))
=============================================================================
