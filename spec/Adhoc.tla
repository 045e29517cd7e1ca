-------------------------------- MODULE Adhoc --------------------------------
(* Sine-Gaussian and ringdown waveforms on a time grid of n samples. Rates   *)
(* and frequencies are whole numbers, Q = qn / qd, phases are eighths of a   *)
(* turn (p in 0..7), angles of inclination sixteenths (i).                   *)
EXTENDS Trig, Sequences
U == 10000
\* exp(-x / U)
Exps == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1>>
ExpNeg(x) == LET k == x \div U  y == x % U
                 y2 == (y * y) \div U  y3 == (y2 * y) \div U  y4 == (y3 * y) \div U  y5 == (y4 * y) \div U  y6 == (y5 * y) \div U
                 s == U - y + (y2 \div 2) - (y3 \div 6) + (y4 \div 24) - (y5 \div 120) + (y6 \div 720)
             IN  IF k > 9 THEN 0 ELSE (Exps[k + 1] * s) \div U
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* ---- sine-Gaussian: phase of sample k = 0..n-1 is pi m fn / fd, m = 2k - n
\* r: f, qn, qd, p, en, ed (eccentricity en / ed), hn (hrss)
SgAngle(r, fs, n, k) == LET g == Gcd(r.f, 2 * fs) IN [n |-> (r.f \div g) * (2 * k - n), d |-> (2 * fs) \div g]
Envelope(r, fs, n, k) ==
  LET q == MulDiv(Abs(2 * k - n) * r.f, 1000 * r.qd, fs * r.qn) IN
  IF q > 10000 THEN 0 ELSE ExpNeg(MulDiv(q * q, 4935, 100000))
\* exp(-Q^2)
Small(r) == IF r.qn > 4 * r.qd THEN 0 ELSE ExpNeg(MulDiv(r.qn * r.qn, U, r.qd * r.qd))
\* amplitudes in units of 1 / 2000 of the root-sum-square amplitude
EccU(r) == (r.en * r.en * U) \div (r.ed * r.ed)
High(r) == r.f * r.qd > 100 * r.qn
SgBase(r, s) == LET R == IF High(r) THEN (70898 * r.f * r.qd) \div r.qn ELSE MulDiv(7089815, r.f * r.qd, r.qn)
                    c2 == (Small(r) * (CosN(2 * r.p, 8) \div 3)) \div U
                IN  MulDiv(MulDiv(R, U, U + s * c2), U, 2 * U - EccU(r))
SgRoot(r, x) == r.hn * SqrtS(x, IF High(r) THEN 20 ELSE 2)
SgPlusAmp(r) == SgRoot(r, SgBase(r, 1))
SgCrossAmp(r) == SgRoot(r, MulDiv(SgBase(r, -1), U - EccU(r), U))
\* sample k of both polarizations
SgPoint(amp, r, fs, n, k, shift) ==
  LET a == SgAngle(r, fs, n, k) IN MulDivS(MulDivS(amp, CosN(8 * a.n - (r.p + shift) * a.d, 8 * a.d), TS), Envelope(r, fs, n, k), U)
SgPlus(r, fs, n) == LET A == TLCEval(SgPlusAmp(r)) IN [k \in 1..n |-> SgPoint(A, r, fs, n, k - 1, 0)]
SgCross(r, fs, n) == LET A == TLCEval(SgCrossAmp(r)) IN [k \in 1..n |-> SgPoint(A, r, fs, n, k - 1, 2)]
\* allowed error of samples of a waveform of amplitude A
SgTol(A) == (A * 3) \div 1000 + 4

\* ---- ringdown. r: f, qn, qd, ne (percent radiated), p, i, dist (Mpc), w
\* (unit: samples are in units of 10^-18 / w)
Cbrt4(x) == LET RECURSIVE b(_, _)
                b(lo, hi) == IF hi - lo <= 1 THEN lo
                             ELSE LET m == (lo + hi) \div 2 IN IF m * m * m <= x THEN b(m, hi) ELSE b(lo, m)
                c == b(0, 1290)
            IN  IF c = 0 THEN 0 ELSE 10 * c + (((x - c * c * c) * 10) \div 3) \div (c * c)
\* 1 - 0.63 (2/Q)^(2/3) and 1 + 7 / (24 Q^2)
SpinFac(r) == U - (63 * Cbrt4((1000000000 \div (r.qn * r.qn)) * 4 * r.qd * r.qd)) \div 100
QFac(r) == U + (7 * U * r.qd * r.qd) \div (24 * r.qn * r.qn)
RdAmp(r) == LET v == MulDiv(SpinFac(r) * 100, U, QFac(r))
                s == SqrtS(MulDiv(v, r.qd, r.qn), 20)
                base == MulDiv(MulDiv(r.w, 1000 * r.ne, r.f * r.dist), 2445, 100000)
            IN  MulDiv(base, s, 20000)
CosI(r) == CosN(r.i, 16) \div 3
SinI(r) == SinN(r.i, 16) \div 3
RdPlusAmp(r) == MulDiv(RdAmp(r), U + (CosI(r) * CosI(r)) \div U, U)
RdCrossAmp(r) == MulDivS(RdAmp(r), 2 * SinI(r), U)
RdAngle(r, fs, k) == LET g == Gcd(r.f, fs) IN [n |-> (r.f \div g) * k, d |-> fs \div g]
Decay(r, fs, k) == ExpNeg(MulDiv(31416 * k, r.f * r.qd, fs * r.qn))
RdPoint(amp, r, fs, k, shift) ==
  LET a == RdAngle(r, fs, k) IN MulDivS(MulDivS(amp, CosN(8 * a.n + (r.p + shift) * a.d, 8 * a.d), TS), Decay(r, fs, k), U)
RdPlus(r, fs, n) == LET A == TLCEval(RdPlusAmp(r)) IN [k \in 1..n |-> RdPoint(A, r, fs, k - 1, 0)]
\* the sine is the cosine a quarter turn earlier
RdCross(r, fs, n) == LET A == TLCEval(RdCrossAmp(r)) IN [k \in 1..n |-> RdPoint(A, r, fs, k - 1, -2)]
RdTol(A) == (Abs(A) * 3) \div 1000 + 4

\* ---- number of samples for a duration of dn / dd
Samples(dn, dd, fs) == (dn * fs) \div dd
=============================================================================
