---------------------------- MODULE Distribution ----------------------------
(* The laws of the parameter distributions. A law is a record with a family  *)
(*   cos   [lo, hi] in 1/96 of a turn: density proportional to the cosine    *)
(*   sin   the same for the sine                                             *)
(*   pow   x = r or r^2 (sq) for roots between ra and rb (rb = 0: no upper   *)
(*         end), density proportional to x^(i2/2)                            *)
(*   root  x = (r / 100)^k for r between 100 and rb, density proportional to *)
(*         x^(s/k - 1), s one or minus one                                   *)
(*   log   x = a g^k for 0 <= k <= kk, density proportional to 1/x           *)
(*   norm  logarithm normal: x = 2^(j + k z)                                 *)
(*   vol   uniform in comoving volume times a rate (1 + z)^rate, for a flat  *)
(*         cosmology; distances of the given type                            *)
(* Points of a law are integers p; Cdf(law, p) is 10000 times the probability*)
(* up to p, Pdf(law, p) 1000 times the density times the length of the range *)
(* (times the lower end if the range is unbounded).                          *)
EXTENDS Trig, Sequences, SequencesExt
D1 == 20000
\* (n / d)^m scaled D1, for 0 <= n <= d
RECURSIVE QPow(_, _, _)
QPow(n, d, m) == IF m = 0 THEN D1 ELSE LET h == QPow(n, d, m - 1) IN MulDiv(h, n, d)
\* phase whose cosine is the density
Ph(w, p) == IF w.fam = "sin" THEN p - 24 ELSE p
Arc(w) == SinN(Ph(w, w.hi), 96) - SinN(Ph(w, w.lo), 96)
CosCdf(w, p) == MulDiv(SinN(Ph(w, p), 96) - SinN(Ph(w, w.lo), 96) + 1, 10000, Arc(w))
\* the length of the range in radians is 2 pi (hi - lo) / 96, scaled 3000
CosPdf(w, p) == MulDiv(MaxI(0, CosN(Ph(w, p), 96)), (18850 * (w.hi - w.lo)) \div 96, Arc(w)) \div 3
\* ---------------------------------------------------------------- power laws
Beta2(w) == w.i2 + 2
M(w) == IF w.sq THEN Beta2(w) ELSE Beta2(w) \div 2
X(w, r) == IF w.sq THEN r * r ELSE r
Span(w) == IF w.rb = 0 THEN X(w, w.ra) ELSE X(w, w.rb) - X(w, w.ra)
PowCdf(w, r) ==
  IF M(w) > 0 THEN LET A == QPow(w.ra, w.rb, M(w)) IN MulDiv(QPow(r, w.rb, M(w)) - A, 10000, D1 - A)
  ELSE LET B == IF w.rb = 0 THEN 0 ELSE QPow(w.ra, w.rb, -M(w)) IN MulDiv(D1 - QPow(w.ra, r, -M(w)), 10000, D1 - B)
\* v * span / x
Along(w, v, r) == LET s == IF X(w, r) < 5000 THEN 1 ELSE 1 + MaxI(X(w, r), Span(w)) \div 40000
                  IN MulDiv(v, Span(w) \div s, X(w, r) \div s)
PowPdf(w, r) ==
  IF M(w) > 0 THEN LET A == QPow(w.ra, w.rb, M(w)) IN
       Along(w, MulDiv(QPow(r, w.rb, M(w)), 500 * Beta2(w), D1 - A), r)
  ELSE LET B == IF w.rb = 0 THEN 0 ELSE QPow(w.ra, w.rb, -M(w)) IN
       Along(w, MulDiv(QPow(w.ra, r, -M(w)), -500 * Beta2(w), D1 - B), r)
\* error of PowPdf from the rounding of the powers
PowErr(w, r) == Along(w, 1 + (500 * Abs(M(w)) * Abs(Beta2(w))) \div D1, r)
\* -------------------- powers close to minus one: (r / 100)^m scaled 10000
RECURSIVE RPow(_, _)
RPow(r, m) == IF m = 0 THEN 10000 ELSE MulDiv(RPow(r, m - 1), r, 100)
\* 10^n a / c digit by digit, for c below 2 10^8
RECURSIVE Digits(_, _, _)
Digits(a, c, n) == IF n = 0 THEN a \div c ELSE (a \div c) * 10^n + Digits(10 * (a % c), c, n - 1)
RootCdf(w, r) == IF w.s = 1 THEN (10000 * (r - 100)) \div (w.rb - 100) ELSE (((10000 * (r - 100)) \div (w.rb - 100)) * w.rb) \div r
RootPdf(w, r) ==
  LET q == Digits(RPow(w.rb, w.k) - 10000, w.k * RPow(r, w.k - 1), 5)
  IN (IF w.s = 1 THEN q ELSE MulDiv(q, w.rb * 100, r * r)) \div (w.rb - 100)
\* natural logarithms * 10000
Ln(g) == CASE g = 2 -> 6931 [] g = 3 -> 10986 [] g = 4 -> 13863
LogCdf(w, k) == (10000 * k) \div w.kk
LogPdf(w, k) == MulDiv(1000 * (w.g ^ w.kk - 1), 10000, w.kk * Ln(w.g)) \div (w.g ^ k)
\* normal law at -2 .. 2 standard deviations, * 10000 and * 100000
NormCdf(z) == CASE z = -2 -> 228 [] z = -1 -> 1587 [] z = 0 -> 5000 [] z = 1 -> 8413 [] z = 2 -> 9772
NormPdf(z) == CASE z \in {-2, 2} -> 5399 [] z \in {-1, 1} -> 24197 [] z = 0 -> 39894
\* density times x: phi(z) / (k ln 2)
LogNormPdf(w, z) == (100 * NormPdf(z)) \div (w.k * Ln(2))
(* ------------------------------------------------------------- cosmology  *)
(* Tables over redshift i / HS: inverse Hubble rates by 10000, twice the      *)
(* comoving distances (unit c/H0 / (HS * 10000)), weights and their sums.    *)
HS == 40
InvE(om, i) ==
  LET v == MulDiv((HS + i) ^ 3, om, HS ^ 3 \div 100) + 100 * (1000 - om)        \* 10^5 E^2
  IN 94868330 \div SqrtS(v, 30)                        \* 10^4 * 30 * sqrt(10^5) / (30 sqrt v)
Acc(q) == LET r == FoldLeft(LAMBDA acc, i : TLCEval([s |-> acc.s + q[i] + q[i + 1], out |-> Append(acc.out, acc.s + q[i] + q[i + 1])]),
                            [s |-> 0, out |-> <<0>>], [i \in 1..(Len(q) - 1) |-> i]) IN r.out
Rate(k, i) == CASE k = 0 -> 1000 [] k = 1 -> (1000 * (HS + i)) \div HS [] k = 2 -> (1000 * (HS + i) * (HS + i)) \div (HS * HS)
                [] k = -1 -> (1000 * HS) \div (HS + i) [] k = -2 -> (1000 * HS * HS) \div ((HS + i) * (HS + i))
RateTop(k) == CASE k = 2 -> 36000 [] k = 1 -> 6000 [] OTHER -> 1000
DistOf(w, dc2, i) == CASE w.type = "redshift" -> 1000 * (i - 1)
                       [] w.type = "comoving_distance" -> dc2[i]
                       [] w.type = "luminosity_distance" -> MulDiv(dc2[i], HS + i - 1, HS)
\* up to redshift 5, cut just above the upper end hi
Tables(w, hi) ==
  LET inv0 == TLCEval([i \in 1..201 |-> InvE(w.om, i - 1)])
      dc0 == TLCEval(Acc(inv0))
      n == CHOOSE n \in 3..201 : (DistOf(w, dc0, n) > hi \/ n = 201) /\ \A k \in 3..(n - 1) : DistOf(w, dc0, k) <= hi
      top == dc0[n]
      sq == TLCEval([i \in 1..n |-> LET y == MulDiv(dc0[i] \div 10, 2000, top \div 10) IN y * y])
      wt == TLCEval([i \in 1..n |-> MulDiv(MulDiv(sq[i], inv0[i], 10000), Rate(w.rate, i - 1), RateTop(w.rate))])
  IN TLCEval([inv |-> SubSeq(inv0, 1, n), dc2 |-> SubSeq(dc0, 1, n), wt |-> wt, cum |-> Acc(wt)])
(* the distance at table entry i, unit c/H0 / 80000 per entry of dc2; redshift in units of 1/HS *)
Dist(w, t, i) == DistOf(w, t.dc2, i)
\* x in thousandths of 1/HS redshift, or in that unit of distance: [cell, fraction * 10000]
Cell(w, t, x) == LET i == CHOOSE i \in 1..(Len(t.dc2) - 1) : Dist(w, t, i) <= x /\ (x < Dist(w, t, i + 1) \/ i = Len(t.dc2) - 1)
                 IN <<i, MulDiv(x - Dist(w, t, i), 10000, Dist(w, t, i + 1) - Dist(w, t, i))>>
\* within a cell the weight is interpolated, its sum quadratically
Lin(q, c) == q[c[1]] + MulDivS(q[c[1] + 1] - q[c[1]], c[2], 10000)
CumAt(t, c) == t.cum[c[1]] + MulDiv(t.wt[c[1]] + Lin(t.wt, c), c[2], 10000)
VolCdf(w, t, lo, hi, x) == LET a == CumAt(t, Cell(w, t, lo)) b == CumAt(t, Cell(w, t, hi)) y == CumAt(t, Cell(w, t, x))
                           IN LET s == 1 + (b - a) \div 200000 IN MulDiv((y - a) \div s, 10000, (b - a) \div s)
\* d distance / d (redshift * HS), in units of Dist
Slope(w, t, c) == CASE w.type = "redshift" -> 1000
                    [] w.type = "comoving_distance" -> 2 * Lin(t.inv, c)
                    [] w.type = "luminosity_distance" ->
                         MulDiv(Lin(t.dc2, c), 1, HS) + (2 * Lin(t.inv, c) * ((100 * (HS + c[1] - 1)) + c[2] \div 100)) \div (100 * HS)
VolPdf(w, t, lo, hi, x) ==
  LET a == CumAt(t, Cell(w, t, lo)) b == CumAt(t, Cell(w, t, hi)) c == Cell(w, t, x)
      q == MulDiv(2 * Lin(t.wt, c), 1000, (b - a) \div 1000)
  IN IF hi - lo <= 8000 THEN MulDiv(MulDiv(2 * Lin(t.wt, c), hi - lo, Slope(w, t, c)), 1000, b - a)
     ELSE MulDiv(MulDiv(hi - lo, 1000, Slope(w, t, c)), q, 1000) \div 1000
(* a distance (thousandths of redshift, or Mpc) in units of Dist, for h0 in  *)
(* hundredths of km/s/Mpc: c / H0 = 29979246 / h0 Mpc = 800000 units         *)
ToUnit(w, x) == IF w.type = "redshift" THEN x * HS ELSE MulDiv(x * w.h0, 800, 29979)
\* closed form of the comoving distance's own law
CubeCdf(a, b, x) == LET n(v) == MulDiv(v, 1000, b)
                        f(v) == n(v) * n(v) + n(v) * n(a) + n(a) * n(a)
                    IN MulDiv(MulDiv(x - a, 10000, b - a), f(x) \div 100, f(b) \div 100)
CubePdf(a, b, x) == LET n(v) == MulDiv(v, 1000, b)
                    IN MulDiv((3 * n(x) * n(x)) \div 10, 1000, (n(b) * n(b) + n(a) * n(b) + n(a) * n(a)) \div 10)
=============================================================================
