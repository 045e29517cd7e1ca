-------------------------------- MODULE Snr ---------------------------------
(* Matched filter SNR of integer responses. The PSD enters through its       *)
(* integer reciprocal w. Cuts are rationals <<num, den>> in Hz, or <<>>.     *)
EXTENDS Trig
\* hundred times the spectral power of bin k (power in units of |DFT|^2)
Power(x, k, ct, st) == LET re == RoundDiv(DftRe(x, k, ct), 300)  im == RoundDiv(DftIm(x, k, st), 300)
                       IN  RoundDiv(re * re + im * im, 100)
\* which bins take part: from the highpass, inclusive, to the lowpass, exclusive
AtLeast(k, rate, n, f) == k * rate * f[2] >= f[1] * n
InBand(k, rate, n, hp, lp) == /\ hp # <<>> => AtLeast(k, rate, n, hp)
                              /\ lp # <<>> => ~AtLeast(k, rate, n, lp)
Bins(n) == n \div 2 + 1
Band(n, rate, hp, lp) == TLCEval([k \in 1..Bins(n) |-> InBand(k - 1, rate, n, hp, lp)])
\* hundred times the squared SNR of one series x with weights w over the bins in m
Rho2(x, w, m, rate, ct, st) ==
  RoundDiv(4 * SumI(LAMBDA k : IF m[k] THEN w[k] * Power(x, k - 1, ct, st) ELSE 0, 1, Len(w)), rate * Len(x))
\* the weights of element b, channel c (from 0) for a PSD of shape sh
Weights(w, sh, b, c) ==
  LET f == Last(sh)
      o == IF Len(sh) = 1 THEN 0 ELSE IF Len(sh) = 2 THEN c * f ELSE (b * sh[2] + c) * f
  IN SubSeq(w, o + 1, o + f)
Series(d, sh, b, c) == LET o == (b * sh[2] + c) * sh[3] IN SubSeq(d, o + 1, o + sh[3])
\* table of hundred times squared SNRs, element by channel
Table(d, sh, w, wsh, m, rate) ==
  LET ct == CosTab(sh[3])  st == SinTab(sh[3])
      one == TLCEval([b \in 0..(sh[1] - 1), c \in 0..(sh[2] - 1) |->
               Rho2(Series(d, sh, b, c), Weights(w, wsh, b, c), m, rate, ct, st)])
  IN one
Network(tab, b, chans) == SumI(LAMBDA c : tab[b, c], 0, chans - 1)
\* q is hundred times an SNR whose square is v / 100
IsRoot(q, v) == q >= 0 /\ q < 40000 /\ Abs(q * q - 100 * v) <= 300 + 3 * q + v \div 3
=============================================================================
