------------------------------ MODULE QTransform ------------------------------
(* Q-transforms: the tiles of the latest data, energies over frequency       *)
(* ranges, one row of tiles, bilinear interpolation of rows to an image.     *)
EXTENDS Trig
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* ---- energies: a table m[series][frequency] of maxima over time, series in
\* row-major order of <<B, C>>; R: the set of frequency indices searched
Over(m, ss, R) == MaxOf({m[s][k] : s \in ss, k \in R})
Energy(m, B, C, R, dim) ==
  CASE dim = "both" -> <<Over(m, 1..(B * C), R)>>
    [] dim = "neither" -> TLCEval([s \in 1..(B * C) |-> Over(m, {s}, R)])
    [] dim = "batch" -> TLCEval([b \in 1..B |-> Over(m, {(b - 1) * C + c : c \in 1..C}, R)])
    [] dim = "channel" -> TLCEval([c \in 1..C |-> Over(m, {(b - 1) * C + c : b \in 1..B}, R)])
EnergyShape(B, C, dim) == CASE dim = "both" -> <<>> [] dim = "neither" -> <<B, C>> [] dim = "batch" -> <<B>> [] dim = "channel" -> <<C>>
\* frequencies strictly between (and, optionally, at) the ends of a range
InRange(freqs, lo, hi, atlo, athi) ==
  {k \in 1..Len(freqs) : (freqs[k] > lo \/ (atlo /\ freqs[k] = lo)) /\ (freqs[k] < hi \/ (athi /\ freqs[k] = hi))}

\* ---- bilinear resizing of n samples to t, sample i (0-based): centres of
\* equal cells are mapped onto each other, edges are held
Lerp(x, i, n, t) ==
  LET num == MaxI(0, (2 * i + 1) * n - t)      \* position times 2t
      j == MinI(num \div (2 * t), n - 1)
      r == IF j = n - 1 THEN 0 ELSE num - j * 2 * t
      k == MinI(j + 1, n - 1)
  IN  (x[j + 1] * (2 * t - r) + x[k + 1] * r) \div (2 * t)
Resize(x, t) == TLCEval([i \in 1..t |-> Lerp(x, i - 1, Len(x), t)])
\* rows of different lengths to an F x T image, flattened
Image(rows, F, T) ==
  LET r == TLCEval([k \in 1..Len(rows) |-> Resize(rows[k], T)])
      col == TLCEval([t \in 1..T |-> Resize([k \in 1..Len(rows) |-> r[k][t]], F)])
  IN  TLCEval([i \in 1..(F * T) |-> col[((i - 1) % T) + 1][((i - 1) \div T) + 1]])

\* ---- one row of tiles at frequency f, duration d, Q = r sqrt(11): the
\* spectrum (pairs of integers, |.| <= 9) times a bisquare window of half
\* width f d / r around f, as a time series of energies at n times
Half(b, r) == b \div r                              \* b = f d
Bisquare(b, r, i) == LET u == RoundDiv((b * b - i * r * i * r) * 10000, b * b) IN RoundDiv(u * u, 100000)   \* 1000ths
Bin(b, i, last) == MaxI(0, MinI(last, i + 1 + b))
Windowed(X, b, r) == LET h == Half(b, r) IN
  TLCEval([i \in 1..(2 * h + 1) |-> LET z == X[Bin(b, i - h - 1, Len(X) - 1) + 1]  w == Bisquare(b, r, i - h - 1) IN <<z[1] * w, z[2] * w>>])
\* 900 times the squared modulus of the sum at time t of n
Energy900(W, h, t, n, ct, st) ==
  LET c(i) == RoundDiv(ct[((i - h - 1) * t) % n], 30)  s(i) == RoundDiv(st[((i - h - 1) * t) % n], 30)
      re == SumI(LAMBDA i : W[i][1] * c(i) - W[i][2] * s(i), 1, Len(W))
      im == SumI(LAMBDA i : W[i][1] * s(i) + W[i][2] * c(i), 1, Len(W))
      a == RoundDiv(re, 33333)  b == RoundDiv(im, 33333)
  IN  a * a + b * b
=============================================================================
