------------------------------- MODULE Welch --------------------------------
(* Welch's spectral densities of integer series. Windows w are in 1 / 10000, *)
(* spectral values in hundredths before the overall scale.                   *)
EXTENDS Trig
Hann(n) == TLCEval([j \in 1..n |-> RoundDiv(TS - CosN(j - 1, n), 6)])
NSeg(t, n, s) == (t - n) \div s + 1
Seg(x, i, n, s) == SubSeq(x, i * s + 1, i * s + n)              \* i from 0
\* windowed segment with the mean S / m removed, in hundredths
Tapered(seg, w, S, m) == TLCEval([j \in 1..Len(seg) |-> RoundDiv(w[j] * (m * seg[j] - S), 100 * m)])
\* all tapered segments; exact: each loses its own mean, fast: the series' mean
Segments(x, n, s, w, fast) ==
  TLCEval([i \in 1..NSeg(Len(x), n, s) |->
     LET g == Seg(x, i - 1, n, s) IN
     IF fast THEN Tapered(g, w, SumSeq(x), Len(x)) ELSE Tapered(g, w, SumSeq(g), n)])
Bins(n) == n \div 2 + 1
Doubling(k, n) == IF k = 0 \/ 2 * k = n THEN 1 ELSE 2
\* complex coefficient of bin k of a tapered segment, in tenths
Re(v, k, ct) == RoundDiv(DftRe(v, k, ct),  10 * TS)
Im(v, k, st) == RoundDiv(DftIm(v, k, st),  10 * TS)
\* aggregation over segments
Mean(p) == RoundDiv(SumSeq(p), Len(p))
Bias(n) == 10000 + SumI(LAMBDA i : RoundDiv(10000, 2 * i + 1) - RoundDiv(10000, 2 * i), 1, (n - 1) \div 2)
\* the same in millionths, for any number of segments
FineBias(n) == LET u == 100000000 IN
  RoundDiv(u + FoldLeft(LAMBDA a, i : a + RoundDiv(u, 2 * i + 1) - RoundDiv(u, 2 * i), 0, [i \in 1..((n - 1) \div 2) |-> i]), 100)
Mid(p) == LET q == SortSeq(p, LAMBDA a, b : a < b)  n == Len(p)
          IN RoundDiv(q[(n + 1) \div 2] + q[n \div 2 + 1], 2)
Median(p) == MulDivS(Mid(p), 10000, Bias(Len(p)))
Agg(p, median) == IF median THEN Median(p) ELSE Mean(p)
\* power spectral density: sequence over bins of <<value, tolerance>>
Psd(x, n, s, w, fast, median) ==
  LET g == Segments(x, n, s, w, fast)  ct == CosTab(n)  st == SinTab(n) IN
  TLCEval([k \in 1..Bins(n) |->
     LET p == TLCEval([i \in 1..Len(g) |-> LET a == Re(g[i], k - 1, ct)  b == Im(g[i], k - 1, st)
                                   IN Doubling(k - 1, n) * (a * a + b * b)])
     IN <<Agg(p, median), 20 + 6 * Isqrt(FoldLeft(MaxI, 0, p))>>])
\* cross spectral density (always the fast variant): <<re, im, tolerance>>
Csd(x, y, n, s, w, median) ==
  LET g == Segments(x, n, s, w, TRUE)  h == Segments(y, n, s, w, TRUE)  ct == CosTab(n)  st == SinTab(n) IN
  TLCEval([k \in 1..Bins(n) |->
     LET z == TLCEval([i \in 1..Len(g) |->
                 LET a == Re(g[i], k - 1, ct)  b == Im(g[i], k - 1, st)
                     c == Re(h[i], k - 1, ct)  d == Im(h[i], k - 1, st)
                     m == Doubling(k - 1, n)
                 IN <<m * (a * c + b * d), m * (a * d - b * c), MaxI(MaxI(Abs(a), Abs(b)), MaxI(Abs(c), Abs(d)))>>])
         re == [i \in 1..Len(z) |-> z[i][1]]  im == [i \in 1..Len(z) |-> z[i][2]]
     IN <<Agg(re, median), Agg(im, median), 20 + 9 * FoldLeft(LAMBDA u, e : MaxI(u, e[3]), 0, z)>>])
\* shapes for which a cross spectral density is defined
PsdOk(sh, n) == Len(sh) \in 1..3 /\ Last(sh) >= n
CsdOk(xs, ys, n) == /\ PsdOk(xs, n) /\ Last(xs) = Last(ys)
                    /\ \/ xs = ys
                       \/ Len(xs) = 2 /\ Len(ys) = 1
                       \/ Len(xs) = 3 /\ Len(ys) = 2 /\ xs[1] = ys[1]
\* series i (from 0) of x is paired with this series of y
Partner(xs, ys, i) == IF xs = ys THEN i ELSE IF Len(xs) = 2 THEN 0 ELSE i \div xs[2]
Count(sh) == ProdSeq(SubSeq(sh, 1, Len(sh) - 1))
Row(d, sh, i) == SubSeq(d, i * Last(sh) + 1, (i + 1) * Last(sh))
=============================================================================
