-------------------------------- MODULE Trig --------------------------------
(* Fixed point sine and cosine of rational parts of a turn, square roots and *)
(* discrete Fourier transforms in 32 bit integers. Values are scaled by TS,  *)
(* with an error of a few units.                                             *)
EXTENDS Num, TLC
TS == 30000
TwoPi == 188496                       \* 2 pi * TS, rounded
\* a * b / c for a >= 0, c > 0 without forming a * b when a is large
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
MulDivS(a, b, c) == IF a < 0 THEN -MulDiv(-a, b, c) ELSE MulDiv(a, b, c)
RoundDiv(a, b) == (a + b \div 2) \div b

\* sine and cosine of x / TS for 0 <= x <= pi / 4 * TS
SinX(x) == LET x2 == (x * x) \div TS
               t3 == (x * x2) \div TS  t5 == (t3 * x2) \div TS  t7 == (t5 * x2) \div TS
           IN  x - RoundDiv(t3, 6) + RoundDiv(t5, 120) - t7 \div 5040
CosX(x) == LET x2 == (x * x) \div TS
               x4 == (x2 * x2) \div TS  x6 == (x4 * x2) \div TS
           IN  TS - RoundDiv(x2, 2) + RoundDiv(x4, 24) - RoundDiv(x6, 720)
\* cosine of m / d turns for 0 <= m / d <= 1 / 4
CosQ(m, d) == IF 8 * m <= d THEN CosX(RoundDiv(TwoPi * m, d))
              ELSE SinX(RoundDiv(TwoPi * (d - 4 * m), 4 * d))
\* cos and sin of n / d turns: any integer n, 0 < d <= 2000
CosN(n, d) == LET m == n % d
                  h == IF 2 * m > d THEN d - m ELSE m      \* first half turn
              IN  IF 4 * h <= d THEN CosQ(h, d) ELSE -CosQ(d - 2 * h, 2 * d)
SinN(n, d) == CosN(4 * n - d, 4 * d)

\* largest r with r * r <= n
Isqrt(n) == LET RECURSIVE it(_)
                it(r) == LET q == (r + n \div r) \div 2 IN IF q >= r THEN r ELSE it(q)
            IN  IF n <= 0 THEN 0 ELSE it(MinI(n, 46340))
\* s * sqrt(v) for v * s < 2^31 and sqrt(v) * s * s < 2^31
SqrtS(v, s) == LET RECURSIVE it(_, _)
                   it(y, k) == IF k = 0 \/ y = 0 THEN y ELSE it((y + MulDiv(v * s, s, y)) \div 2, k - 1)
               IN  IF v <= 0 THEN 0 ELSE it((Isqrt(v) * s) + s \div 2, 4)

\* Discrete Fourier transform of a sequence of integers: the pair of sums
\* scaled by TS (|x| * Len < 60000)
CosTab(n) == TLCEval([k \in 0..(n - 1) |-> CosN(k, n)])
SinTab(n) == TLCEval([k \in 0..(n - 1) |-> SinN(k, n)])
DftRe(x, k, ct) == LET n == Len(x) IN SumI(LAMBDA j : x[j + 1] * ct[(j * k) % n], 0, n - 1)
DftIm(x, k, st) == LET n == Len(x) IN -SumI(LAMBDA j : x[j + 1] * st[(j * k) % n], 0, n - 1)
=============================================================================
