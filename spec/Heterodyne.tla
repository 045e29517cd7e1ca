------------------------------ MODULE Heterodyne ------------------------------
(* Rotation of a spectrum. Complex numbers are pairs <<re, im>> of integers. *)
EXTENDS Trig
Bins(n) == n \div 2 + 1
\* spectrum of x (integers), 100 times, from tables of cosines and sines
Spectrum(x, ct, st) == TLCEval([k \in 1..Bins(Len(x)) |->
  <<RoundDiv(DftRe(x, k - 1, ct), 300), RoundDiv(DftIm(x, k - 1, st), 300)>>])
\* product with a unit phase given in 1 / 10000
Rotate(z, p) == <<RoundDiv(z[1] * p[1] - z[2] * p[2], 10000), RoundDiv(z[1] * p[2] + z[2] * p[1], 10000)>>
NoDc(F) == [F EXCEPT ![1] = <<0, 0>>]
Heterodyned(x, P, ct, st) == NoDc(TLCEval([k \in 1..Bins(Len(x)) |-> Rotate(Spectrum(x, ct, st)[k], P[k])]))
\* n times the real series of a spectrum
SeriesN(F, n, ct, st) == TLCEval([t \in 1..n |->
  LET Re(k) == F[k + 1][1] * ct[(k * (t - 1)) % n] - F[k + 1][2] * st[(k * (t - 1)) % n]
  IN  RoundDiv(SumI(LAMBDA k : (IF k = 0 \/ 2 * k = n THEN 1 ELSE 2) * Re(k), 0, Bins(n) - 1), TS)])
Norm2(z) == z[1] * z[1] + z[2] * z[2]

\* The prescribed phase 3/128 (pi M f)^(-5/3) in turns, for M f = c^3 in
\* solar masses times Hertz: K / c^5 with K about 388209; K2000 = 2000 K
K2000 == 776418275
PhaseTurns2000(c) == RoundDiv(K2000, Pow(c, 5))
=============================================================================
