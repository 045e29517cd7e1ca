--------------------------------- MODULE Iir ----------------------------------
(* Recursive filters applied forward and backward. A coefficient is a      *)
(* triple of decimal parts in the traces and an integer in the design        *)
(* model: Mul is the product of a coefficient and a value.                   *)
EXTENDS Trig
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
\* one causal pass of the difference equation
\*   y[n] = sum_i b[i] x[n - i] - sum_(i > 0) a[i] y[n - i]
\* (b[1], a[1] are the coefficients of lag zero; a[1] is one)
Pass(b, a, x, Mul(_, _)) ==
  FoldLeft(LAMBDA y, n :
    Append(y, SumI(LAMBDA i : Mul(b[i + 1], x[n - i]), 0, MinI(n, Len(b)) - 1)
              - SumI(LAMBDA i : Mul(a[i + 1], y[n - i]), 1, MinI(n, Len(a)) - 1)),
    <<>>, [n \in 1..Len(x) |-> n])
Filt(b, a, x, Mul(_, _)) == Rev(Pass(b, a, Rev(Pass(b, a, x, Mul)), Mul))
MulI(c, v) == c * v
\* c: thousandths, millionths and billionths
MulF(c, v) == MulDivS(v, c[1], 1000) + RoundDiv(MulDivS(v, c[2], 1000) + RoundDiv(MulDivS(v, c[3], 1000), 1000), 1000)

\* ------------------------------------------------ power response of a design
Fx(a, b) == RoundDiv(a * b, TS)
Clip(v, m) == MaxI(-m, MinI(m, v))
\* 1000 * n / d, at most 10^6
Ratio(n, d) == LET p == Abs(n)  q == Abs(d) IN IF q * 1000 <= p THEN 1000000 ELSE (p * 1000) \div q
\* normalised frequency of a band at k / n of the Nyquist frequency: ratios of
\* tangents of the bilinear transform, as <<numerator, denominator>>.
\* band = <<p, q>> or <<p, q, p2, q2>>: edges p / q of the Nyquist frequency.
LpNum(band, k, n) == Fx(SinN(k, 4 * n), CosN(band[1], 4 * band[2]))
LpDen(band, k, n) == Fx(CosN(k, 4 * n), SinN(band[1], 4 * band[2]))
BpNum(band, k, n) == LET s == SinN(k, 4 * n)  c == CosN(k, 4 * n)
                         s1 == SinN(band[1], 4 * band[2])  c1 == CosN(band[1], 4 * band[2])
                         s2 == SinN(band[3], 4 * band[4])  c2 == CosN(band[3], 4 * band[4])
                     IN  Fx(Fx(s, s), Fx(c1, c2)) - Fx(Fx(c, c), Fx(s1, s2))
BpDen(band, k, n) == LET s == SinN(k, 4 * n)  c == CosN(k, 4 * n)
                         s1 == SinN(band[1], 4 * band[2])  c1 == CosN(band[1], 4 * band[2])
                         s2 == SinN(band[3], 4 * band[4])  c2 == CosN(band[3], 4 * band[4])
                     IN  Fx(Fx(s, c), Fx(s2, c1) - Fx(c2, s1))
Norm(kind, band, k, n) ==
  CASE kind = "low" -> <<LpNum(band, k, n), LpDen(band, k, n)>>
    [] kind = "high" -> <<LpDen(band, k, n), LpNum(band, k, n)>>
    [] kind = "band" -> <<BpNum(band, k, n), BpDen(band, k, n)>>
    [] kind = "stop" -> <<BpDen(band, k, n), BpNum(band, k, n)>>
\* r^(2 N), thousandths, at most 10^6
PowR(r, N) == LET RECURSIVE it(_, _)
                  it(v, m) == IF m = 0 THEN v ELSE it(MinI(1000000, MulDiv(v, r, 1000)), m - 1)
              IN  it(1000, 2 * N)
\* Chebyshev polynomial, thousandths, at most 10^5 in size
Cheb(N, r) == LET RECURSIVE it(_, _, _)
                  it(m, p, c) == IF m = N THEN c
                                 ELSE LET v == 2 * MulDivS(c, r, 1000) - p IN
                                      IF v >= 100000 THEN 100000 ELSE it(m + 1, c, v)
              IN  IF N = 0 THEN 1000 ELSE it(1, 1000, r)
\* thousandths of 1 / (1 + x), x in thousandths
Inv1(x) == 1000000 \div (1000 + x)
Sq(v) == MulDiv(Abs(v), Abs(v), 1000)
\* thousandths of the power passed at one frequency; eps = <<n, d>> is the
\* squared ripple (cheby1) or the squared stop-band gain (cheby2)
Power(ftype, N, kind, band, eps, k, n) ==
  LET nd == Norm(kind, band, k, n)  r == Ratio(nd[1], nd[2])  c == Ratio(nd[2], nd[1]) IN
  CASE ftype = "butter" -> Inv1(PowR(r, N))
    [] ftype = "cheby1" -> Inv1(MulDiv(Sq(Cheb(N, r)), eps[1], eps[2]))
    [] ftype = "cheby2" -> 1000 - Inv1(MulDiv(Sq(Cheb(N, c)), eps[1], eps[2]))
=============================================================================
