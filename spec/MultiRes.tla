------------------------------- MODULE MultiRes -------------------------------
(* Combination of spectrograms of different resolution. A spectrogram has    *)
(* f frequency and t time bins and row-major values v.                       *)
EXTENDS Num, TLC
\* bin of a part with s bins for bin i of the finest grid with m
Scaled(i, s, m) == (i * s) \div m
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Rows(parts) == MaxOf({parts[j].f : j \in 1..Len(parts)})
Cols(parts) == MaxOf({parts[j].t : j \in 1..Len(parts)})
Value(p, i, k, F, T) == At2(p.v, p.t, Scaled(i, p.f, F), Scaled(k, p.t, T))
Combined(parts) ==
  LET F == Rows(parts)  T == Cols(parts) IN
  TLCEval([n \in 1..(F * T) |-> LET i == (n - 1) \div T  k == (n - 1) % T IN
    MaxOf({Value(parts[j], i, k, F, T) : j \in 1..Len(parts)})])
\* option lists: every list has one length or length one
Lengths(opts) == {Len(opts[k]) : k \in DOMAIN opts}
Consistent(opts) == Cardinality(Lengths(opts) \ {1}) <= 1 /\ 0 \notin Lengths(opts)
Count(opts) == MaxOf(Lengths(opts))
Option(opts, k, j) == IF Len(opts[k]) = 1 THEN opts[k][1] ELSE opts[k][j]
\* grid of a centred one-sided short-time Fourier transform of n samples
FreqBins(nfft) == nfft \div 2 + 1
TimeBins(n, nfft, hop) == (n + 2 * (nfft \div 2) - nfft) \div hop + 1
=============================================================================
