----------------------------- MODULE Autoencoder ------------------------------
(* Stacks of blocks that encode in order and decode in reverse order, with   *)
(* skip connections. A value is a sequence of channels, each a sequence of   *)
(* integers over time.                                                       *)
EXTENDS Num, TLC
Time(x) == Len(x[1])
\* pad with zeros, or crop, on both sides to n samples
Fit(r, n) == LET d == n - Len(r)  left == d \div 2 IN
  TLCEval([t \in 1..n |-> IF t - left \in 1..Len(r) THEN r[t - left] ELSE 0])
FitAll(x, n) == TLCEval([c \in 1..Len(x) |-> Fit(x[c], n)])
\* -------------------------------------------------------------- skip connections
Plus(x, s) == TLCEval([c \in 1..Len(x) |-> [t \in 1..Time(x) |-> x[c][t] + s[c][t]]])
\* g groups of channels, each followed by those of the state
Braid(x, s, g) == LET w == Len(x) \div g IN
  TLCEval([c \in 1..2 * Len(x) |-> LET k == (c - 1) \div (2 * w)  r == (c - 1) % (2 * w) IN
     IF r < w THEN x[k * w + r + 1] ELSE s[k * w + r - w + 1]])
Join(kind, g, x, s) == LET f == FitAll(x, Time(s)) IN
  CASE kind = "plain" -> f
    [] kind = "add" -> Plus(f, s)
    [] kind = "concat" -> Braid(f, s, g)
    [] kind = "mix" -> TLCEval([c \in 1..Len(f) |-> [t \in 1..Time(f) |-> 2 * f[c][t] + 3 * s[c][t]]])
\* ------------------------------------------------------------ the stack discipline
\* encodings made by the blocks, in order
Encodings(Enc(_, _), n, x) ==
  FoldLeft(LAMBDA E, i : Append(E, Enc(i, IF i = 1 THEN x ELSE E[i - 1])), <<>>, [i \in 1..n |-> i])
\* decode from the encoding v down to block 1; states[i] is what block i
\* encoded, joined to what block i + 1 decoded
DecodeAll(Dec(_, _), Skip(_, _), n, v, states) ==
  FoldLeft(LAMBDA x, k : LET i == n + 1 - k IN
             Dec(i, IF i = n \/ states = <<>> THEN x ELSE Skip(x, states[i])), v, [k \in 1..n |-> k])
\* --------------------------------------------------------------- blocks for testing
\* block b = [s, a, cut]: keeps every s-th sample, times a, plus its number;
\* decoding repeats samples s times, weighs channels, drops cut samples
TestEnc(b, i, x) == TLCEval([c \in 1..Len(x) |-> [t \in 1..CeilDiv(Time(x), b.s) |-> b.a * x[c][(t - 1) * b.s + 1] + i]])
TestDec(b, i, x) == TLCEval(<<[t \in 1..(Time(x) * b.s - b.cut) |-> SumI(LAMBDA c : c * x[c][(t - 1) \div b.s + 1], 1, Len(x)) + 2 * i]>>)
\* ------------------------------------------------------- convolutional blocks
\* all weights one, no bias: g groups, kernel k, stride s
ConvPad(k) == (k - 1) \div 2
Conv(x, out, k, s, g) ==
  LET p == ConvPad(k)  in == Len(x)  T == Time(x)
      \* sum over the channels of a group, padded
      G == TLCEval([j \in 0..(g - 1) |-> [t \in 1..T |-> SumI(LAMBDA c : x[j * (in \div g) + c][t], 1, in \div g)]])
      F == TLCEval([j \in 0..(g - 1) |-> [t \in 1..((T + 2 * p - k) \div s + 1) |->
             SumI(LAMBDA q : LET u == (t - 1) * s - p + q IN IF u \in 1..T THEN G[j][u] ELSE 0, 1, k)]])
  IN  TLCEval([o \in 1..out |-> F[(o - 1) \div (out \div g)]])
ConvT(x, out, k, s, g) ==
  LET p == ConvPad(k)  in == Len(x)  T == Time(x)
      G == TLCEval([j \in 0..(g - 1) |-> [t \in 1..T |-> SumI(LAMBDA c : x[j * (in \div g) + c][t], 1, in \div g)]])
      F == TLCEval([j \in 0..(g - 1) |-> [t \in 1..((T - 1) * s - 2 * p + k) |->
             SumI(LAMBDA u : LET q == t - 1 + p - (u - 1) * s IN IF q \in 0..(k - 1) THEN G[j][u] ELSE 0, 1, T)]])
  IN  TLCEval([o \in 1..out |-> F[(o - 1) \div (out \div g)]])
Act(kind, x) == TLCEval([c \in 1..Len(x) |-> [t \in 1..Time(x) |->
  CASE kind = "id" -> x[c][t] [] kind = "relu" -> MaxI(0, x[c][t]) [] kind = "neg" -> -x[c][t]]])
\* configuration f: in, ch (sequence), k, s, g, act, oact, dec (channels out), skip
ConvEnc(f, i, x) == Act(f.act, Conv(x, f.ch[i] * f.g, f.k, f.s, f.g))
ConvDec(f, i, x) == Act(IF i = 1 THEN f.oact ELSE f.act, ConvT(x, IF i = 1 THEN f.dec ELSE f.ch[i - 1] * f.g, f.k, f.s, f.g))
=============================================================================
