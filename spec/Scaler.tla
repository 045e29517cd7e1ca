------------------------------- MODULE Scaler -------------------------------
(* Channel-wise scaling. The state is, per channel, the statistics of the    *)
(* data of the latest fit: number of samples t, their sum s, and v = t times *)
(* the sum of squares minus s squared (t^2 times the population variance),   *)
(* and the regularisation reg (in thousandths). Channel data are integers.   *)
EXTENDS Trig
VARIABLE st                     \* sequence of statistics, <<>> before any fit
Stat(x, reg) == LET s == SumSeq(x) IN
  [t |-> Len(x), s |-> s, v |-> Len(x) * SumI(LAMBDA i : x[i] * x[i], 1, Len(x)) - s * s, reg |-> reg]
\* channels of data flattened row-major
Chan(d, c, n) == SubSeq(d, (c - 1) * n + 1, c * n)
Fit(d, chans, n, reg) == st' = [c \in 1..chans |-> Stat(Chan(d, c, n), reg)]

MeanQ(a) == RoundDiv(1000 * a.s, a.t)                          \* thousandths
StdQ(a) == RoundDiv(SqrtS(a.v, 1000), a.t) + a.reg
\* standard deviation times 1000 t
Dev(a) == SqrtS(a.v, 1000) + a.reg * a.t
Usable(a) == Dev(a) > 0
\* scaled datum and unscaled datum in thousandths
Apply(a, x) == MulDivS((x * a.t - a.s) * 1000, 1000, Dev(a))
Unscale(a, y) == RoundDiv((SqrtS(a.v, 1000) + a.reg * a.t) * y + 1000 * a.s, a.t)
=============================================================================
