------------------------------ MODULE Generator -------------------------------
(* From a frequency domain approximant to a time domain window.              *)
(*                                                                           *)
(* The sources of a batch live on one ring of W samples (the conditioned     *)
(* waveform) with coalescence rp samples before its seam; the answer is the  *)
(* last S samples of the ring, padded with silence on the left when the ring *)
(* is shorter.                                                               *)
EXTENDS Trig
E4 == 10000
Pow2(n) == n \in {2 ^ k : k \in 0..29}
NextPow2(n) == CHOOSE w \in {2 ^ k : k \in 0..29} : w >= n /\ (w = 1 \/ w \div 2 < n)
Placed(S, rp) == S - rp                     \* index of coalescence, first sample 0
\* ---- the ring. a source is [a |-> samples before, b |-> samples after] coalescence;
\* e: extra samples allowed for by the conditioning on either side
Room(src, e, rp) == LET need(s) == s.a + e + MaxI(e, rp) IN
  NextPow2(FoldLeft(LAMBDA m, s : MaxI(m, need(s)), 1, src))
NarrowRoom(src, e, rp) == LET need(s) == s.a + 2 * e IN
  NextPow2(FoldLeft(LAMBDA m, s : MaxI(m, need(s)), 1, src))
\* instants (samples from coalescence) of a source found in a cell of the ring
Cell(s, W, rp, w) == {t \in (-s.a)..s.b : (W - rp + t) % W = w}
Answer(s, W, S, rp, n) == LET w == n - (S - W) IN IF w < 0 THEN {} ELSE Cell(s, W, rp, w)

\* ---- a packet: frequencies from sr / 8 to 3 sr / 8 with a cosine bell
\* 64 sin(pi n / 4) / (pi n (16 - n n)), ten-thousandths
Env(n) == LET m == Abs(n) IN
  IF m = 0 THEN E4 ELSE IF m = 4 THEN E4 \div 2
  ELSE IF m > 200 THEN 0
  ELSE LET s == RoundDiv(SinN(m, 8), 3)  q == m * (16 - m * m)
           v == (Abs(s) * 20372) \div Abs(q)          \* 64 / pi = 20.372
           r == RoundDiv(v, 1000)
       IN  IF (s >= 0) = (q >= 0) THEN r ELSE -r
Quarter(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Packet(n, ph) == Quarter(n + ph) * Env(n)
\* ---- cosine tapers at the seam, ten-thousandths
Hann(k, m) == RoundDiv(TS - CosN(k, 2 * m), 6)
TaperStart(sr, fn, fd) == MaxI(4, RoundDiv(sr * fd, fn))
\* the end taper lasts one cycle at 1 / (27 pi M): 2393.5 Hz for one solar mass; M in thousandths
TaperEnd(sr, M) == MaxI(4, RoundDiv(sr * M, 2393500))
Weight(S, W, ns, ne, n) == LET t == n - (S - W)  j == S - n IN
  IF t < 0 THEN 0
  ELSE (MulDiv(IF t < ns THEN Hann(t, ns) ELSE E4, IF j < ne THEN Hann(j, ne) ELSE E4, E4))
\* a packet of amplitude A and phase ph quarter turns, tau samples after coalescence
PacketAt(c, W, A, tau, ph, M, n) ==
  LET p == Placed(c.S, c.rp) + tau
      k == Packet(n - p, ph) + Packet(n - p - W, ph) + Packet(n - p + W, ph)
  IN  A * MulDivS(k, Weight(c.S, W, c.ns, TaperEnd(c.sr, M), n), E4)
=============================================================================
