------------------------------- MODULE Whiten -------------------------------
(* Whitening of integer series of length n at an integer rate. The PSD is    *)
(* given by its integer inverse amplitude a (PSD = 1 / a^2) per bin.         *)
(*   - bins below the highpass bin and from the lowpass bin on are zeroed    *)
(*   - an even filter (odd number of bins) loses its Nyquist bin             *)
(*   - the filter's impulse response is tapered to 2 pad samples by a window *)
(*   - the filter acts with zero phase on the mean-removed series            *)
EXTENDS Trig
Bins(n) == n \div 2 + 1
\* length of the filter: the even number 2 (bins - 1)
FLen(n) == 2 * (n \div 2)
\* bin of a frequency <<num, den>> in Hz (whole bins, rounded down)
BinOf(f, n, rate) == (f[1] * FLen(n)) \div (f[2] * rate)
Band(a, n, rate, hp, lp) ==
  TLCEval([k \in 1..Bins(n) |->
     IF hp # <<>> /\ k - 1 < BinOf(hp, n, rate) THEN 0
     ELSE IF lp # <<>> /\ k - 1 >= BinOf(lp, n, rate) THEN 0
     ELSE IF Bins(n) % 2 = 1 /\ k = Bins(n) THEN 0
     ELSE a[k]])
Pad(fd, rate) == (fd[1] * rate) \div (2 * fd[2])
\* Hann taper of size sz in 1 / 10000
Hann(sz) == TLCEval([j \in 1..sz |-> RoundDiv(TS - CosN(j - 1, sz), 6)])
\* inverse real transform of real bins b (symmetric spectrum) at position i
InvAt(b, i, m, ct) ==
  LET h == m \div 2 IN
  b[1] * TS + SumI(LAMBDA k : 2 * b[k + 1] * ct[(k * i) % m], 1, IF m % 2 = 0 THEN h - 1 ELSE h)
            + (IF m % 2 = 0 THEN b[h + 1] * ct[(h * i) % m] ELSE 0)
\* impulse response in hundredths, tapered by window w with 2 pad <= Len(w) <= 2 pad + 1
Impulse(b, n, w) ==
  LET m == FLen(n)  ct == CosTab(m)  sz == Len(w)  pad == sz \div 2 IN
  TLCEval([i \in 1..m |->
     IF i <= pad THEN RoundDiv(RoundDiv(InvAt(b, i - 1, m, ct), 300) * w[sz - pad + i], 10000)
     ELSE IF i > m - pad THEN RoundDiv(RoundDiv(InvAt(b, i - 1, m, ct), 300) * w[i - (m - pad)], 10000)
     ELSE 0])
\* gain of the filter per bin, in thousandths
Gain(b, n, w) ==
  LET q == Impulse(b, n, w)  m == FLen(n)  ct == CosTab(m)  st == SinTab(m) IN
  TLCEval([k \in 1..Bins(n) |->
     LET re == RoundDiv(DftRe(q, k - 1, ct), 3000 * m)  im == RoundDiv(DftIm(q, k - 1, st), 3000 * m)
     IN Isqrt(re * re + im * im)])
\* response of the filter in the time domain, in 1 / 10000
Response(g, n) == LET ct == CosTab(n) IN TLCEval([i \in 1..n |-> RoundDiv(InvAt(g, i - 1, n, ct), 3000 * n)])
\* ten thousand times sqrt(2 / rate)
Norm(rate) == Isqrt(200000000 \div rate)
\* whitened series in thousandths
Whitened(x, r, rate) ==
  LET n == Len(x)  S == SumSeq(x) IN
  TLCEval([i \in 1..n |->
     RoundDiv(MulDivS(RoundDiv(SumI(LAMBDA j : r[((i - j + n) % n) + 1] * (n * x[j] - S), 1, n), n), Norm(rate), 10000), 10)])
Filter(a, n, rate, hp, lp, w) == Response(Gain(Band(a, n, rate, hp, lp), n, w), n)
=============================================================================
