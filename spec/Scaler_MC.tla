----------------------------- MODULE Scaler_MC ------------------------------
(* Fits on all small data: the scaled data have zero mean and unit variance, *)
(* scaling then reversing is the identity, statistics belong to one channel. *)
EXTENDS Scaler, Json, CSV, IOUtils, TLC
VARIABLES d, n
Thorough == IOEnv.TIER = "thorough"
Vals == IF Thorough THEN -3..3 ELSE -2..2
Data(k) == [1..k -> Vals]
Init == st = <<>> /\ d = <<>> /\ n = 0
\* two channels, any sequence of at most two fits (a refit replaces)
Next == /\ n < 2 /\ n' = n + 1
        /\ \E a \in Data(3) : \E b \in {<<0, 1, 5>>, <<2, 2, -1>>, <<-4, 0, 3>>} : d' = a \o b /\ Fit(d', 2, 3, 0)
Spec == Init /\ [][Next]_<<st, d, n>>
T == 3
Whitened == st # <<>> => \A c \in 1..2 :
  LET x == Chan(d, c, T)  a == st[c] IN
  /\ SumI(LAMBDA i : x[i] * T - a.s, 1, T) = 0
  /\ SumI(LAMBDA i : (x[i] * T - a.s) * (x[i] * T - a.s), 1, T) = T * a.v     \* unit variance
  /\ (a.v = 0) <=> \A i \in 1..T : x[i] = x[1]
\* real arithmetic of the inverse: std * ((x - mean) / std) + mean = x, seen
\* through the fixed point formulas
Inverted == st # <<>> => \A c \in 1..2 : LET a == st[c] IN
  Usable(a) => \A x \in -5..5 : Abs(MulDivS(Apply(a, x), StdQ(a), 1000) + MeanQ(a) - 1000 * x) < 15
OwnChannel == st # <<>> => \A c \in 1..2 : st[c] = Stat(Chan(d, c, T), 0)
Emit == (n = 1) => CSVWrite("%1$s", <<ToJson([x |-> d])>>, IOEnv.STIM)
=============================================================================
