-------------------------------- MODULE S4D --------------------------------
(* A diagonal state-space layer. Per channel: a timestep dt = 2^-e, a skip   *)
(* weight d and modes [k, p, q, cr, ci] with A dt = -(k / 2) ln 2 + 2 pi i   *)
(* p / q, so that lambda = exp(A dt) has modulus 2^(-k/2) and turns by p / q *)
(* per step; the output matrix of the mode is cr + i ci.                     *)
(*   state   z(l) = lambda z(l-1) + u(l),  output y(l) = 2 Re sum w z(l) + d u(l) *)
(*   w = C (lambda - 1) / A,  impulse response K(l) = 2 Re sum w lambda^l    *)
EXTENDS Trig, Sequences, SequencesExt
\* complex multiplication over any scalar product M
CMul(a, b, M(_, _)) == <<M(a[1], b[1]) - M(a[2], b[2]), M(a[1], b[2]) + M(a[2], b[1])>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
(* --------------------------------------------------- fixed point (scale TS) *)
Fix(a, b) == MulDivS(a, b, TS)
Root == 21213                                   \* TS / sqrt 2
Modulus(k) == (IF k % 2 = 0 THEN TS ELSE Root) \div (2 ^ (k \div 2))
Lambda(m) == <<Fix(Modulus(m.k), CosN(m.p, m.q)), Fix(Modulus(m.k), SinN(m.p, m.q))>>
\* a * 2000 / c for c up to 10^8
Times2000(a, c) == LET pos(x) == (x \div c) * 2000 + (((x % c) \div 100) * 2000) \div (c \div 100)
                   IN IF a < 0 THEN -pos(-a) ELSE pos(a)
\* (lambda - 1) / (A dt), scale TS: denominator at scale 2000
Gain(m) ==
  LET lam == Lambda(m)
      n == <<lam[1] - TS, lam[2]>>
      d == <<-RoundDiv(m.k * 69315, 100), RoundDiv(125664 * m.p, 10 * m.q)>>
      d2 == d[1] * d[1] + d[2] * d[2]
      num == <<n[1] * d[1] + n[2] * d[2], n[2] * d[1] - n[1] * d[2]>>
  IN <<Times2000(num[1], d2), Times2000(num[2], d2)>>
Weight(m, e) == LET g == Gain(m) IN
  <<(g[1] * m.cr - g[2] * m.ci) \div (2 ^ e), (g[1] * m.ci + g[2] * m.cr) \div (2 ^ e)>>
\* 10000 * kernel of one channel
Kernel(modes, e, L) ==
  LET one(m) == LET lam == TLCEval(Lambda(m)) IN
        FoldLeft(LAMBDA acc, l : TLCEval([z |-> CMul(acc.z, lam, Fix), out |-> Append(acc.out, acc.z[1])]),
                 [z |-> Weight(m, e), out |-> <<>>], [l \in 1..L |-> l]).out
      each == TLCEval([n \in 1..Len(modes) |-> one(modes[n])])
  IN TLCEval([l \in 1..L |-> RoundDiv(2 * SumI(LAMBDA n : each[n][l], 1, Len(modes)), 3)])
\* 10000 * (kernel convolved with integers u, plus d u)
Response(ker, d, u) == TLCEval([l \in 1..Len(u) |-> SumI(LAMBDA j : ker[j] * u[l + 1 - j], 1, l) + 10000 * d * u[l]])
(* -------------------------------- exact machine over the Gaussian integers *)
MulZ(a, b) == a * b
Step(lam, z, u) == CAdd(CMul(lam, z, MulZ), <<u, 0>>)
Out(ws, zs) == 2 * SumI(LAMBDA n : CMul(ws[n], zs[n], MulZ)[1], 1, Len(ws))
RECURSIVE CPow(_, _)
CPow(lam, l) == IF l = 0 THEN <<1, 0>> ELSE CMul(lam, CPow(lam, l - 1), MulZ)
Impulse(lams, ws, L) == [l \in 1..L |-> Out(ws, [n \in 1..Len(ws) |-> CPow(lams[n], l - 1)])]
\* circular convolution of period P of kernel and input, first Len(u) values
Circular(ker, u, P) == [l \in 1..Len(u) |->
  SumI(LAMBDA j : SumI(LAMBDA i : IF (j + i - 2 - (l - 1)) % P = 0 THEN ker[j] * u[i] ELSE 0, 1, Len(u)), 1, Len(ker))]
ValidDropout(kind, num) == kind \in {"float", "int"} /\ num >= 0 /\ num <= 1000
=============================================================================
