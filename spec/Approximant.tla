----------------------------- MODULE Approximant ------------------------------
(* A frequency domain approximant: every source s and frequency bin b has a  *)
(* fixed complex kernel, the response seen face on from unit distance at     *)
(* phase of coalescence zero. A call evaluates a sequence of rows - a source *)
(* with a distance, phase and inclination - on a sequence of bins.           *)
EXTENDS Trig, Sequences
U == 10000
\* z turned by n / d of a turn
Turn(z, n, d) == LET c == CosN(n, d)  s == SinN(n, d) IN
  <<(z[1] * c - z[2] * s) \div TS, (z[1] * s + z[2] * c) \div TS>>
Times(z, a, b) == <<MulDivS(z[1], a, b), MulDivS(z[2], a, b)>>
\* a row: distance kn / kd, phase p eighths of a turn, inclination i
\* sixteenths of a turn
Cfac(i) == CosN(i, 16) \div 3
Pfac(i) == (U + (Cfac(i) * Cfac(i)) \div U) \div 2
\* polarizations of a source whose spins are aligned: face on the cross is the
\* plus a quarter turn behind
AlignedPlus(k, r) == Times(Times(Turn(k, 2 * r.p, 8), Pfac(r.i), U), r.kd, r.kn)
AlignedCross(k, r) == Times(Times(Turn(k, 2 * r.p - 2, 8), Cfac(r.i), U), r.kd, r.kn)
\* precessing sources, turned about the orbital momentum with their spins
Precessing(k, r) == Times(Turn(k, 2 * r.p, 8), r.kd, r.kn)
\* result of a call as a function of row and bin: kp, kc are the kernels
PlusOf(kp, r, aligned) == IF aligned THEN AlignedPlus(kp, r) ELSE Precessing(kp, r)
CrossOf(kp, kc, r, aligned) == IF aligned THEN AlignedCross(kp, r) ELSE Precessing(kc, r)
NearZ(z, w, tol) == Near(z[1], w[1], tol) /\ Near(z[2], w[2], tol)

\* leading order amplitude in units of 10^-29 / Hz at 16 (k / 2)^6 Hz for a
\* chirp mass of 1.2 (j / 2)^6 and a distance of 100 d Mpc: the stationary
\* phase value sqrt(5 / 24) pi^(-2/3) Mc^(5/6) f^(-7/6) / D
Reference == 3577959
Newtonian(k, j, d) == MulDiv(Reference, 4 * Pow(j, 5), Pow(k, 7)) \div d
\* a curve sampled finely has no jumps: the second differences are small
\* phases in parts of a turn of P, differences modulo whole turns
SmoothTurn(a, P, tol, n) == LET d == (a[n + 1] - 2 * a[n] + a[n - 1]) % P IN d <= tol \/ d >= P - tol
SmoothSeq(a, tol) == \A n \in 2..(Len(a) - 1) : Abs(a[n + 1] - 2 * a[n] + a[n - 1]) <= tol
=============================================================================
