--------------------------- MODULE Heterodyne_MC ------------------------------
(* Length four with quarter-turn phases (exact): rotation keeps the energy   *)
(* of all but the mean, is linear, composes, and can be undone.              *)
EXTENDS Heterodyne, Json, CSV, IOUtils
VARIABLES x, p
vars == <<x, p>>
Thorough == IOEnv.TIER = "thorough"
V == IF Thorough THEN -2..2 ELSE -1..1
U == <<<<10000, 0>>, <<0, 10000>>, <<-10000, 0>>, <<0, -10000>>>>
Init == x \in [1..4 -> V] /\ p = <<>>
Next == p = <<>> /\ p' \in [1..3 -> 1..4] /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
CT == CosTab(4)
ST == SinTab(4)
P == [k \in 1..3 |-> U[p[k]]]
Conj == [k \in 1..3 |-> <<U[p[k]][1], -U[p[k]][2]>>]
F(y) == Heterodyned(y, P, CT, ST)
Mean0 == p # <<>> => F(x)[1] = <<0, 0>> /\ SumSeq(SeriesN(F(x), 4, CT, ST)) = 0
UnitModulus == p # <<>> => \A k \in 2..3 : Norm2(F(x)[k]) = Norm2(Spectrum(x, CT, ST)[k])
Linear == p # <<>> => \A k \in 1..3 : F([t \in 1..4 |-> 3 * x[t]])[k] = <<3 * F(x)[k][1], 3 * F(x)[k][2]>>
\* energy of the series: what the mean and the out-of-phase Nyquist part hold is lost
Energy == p # <<>> => LET y == SeriesN(F(x), 4, CT, ST)  f == F(x) IN
  SumI(LAMBDA t : y[t] * y[t], 1, 4) = 4 * (2 * Norm2(f[2]) + f[3][1] * f[3][1])
Undo == (p # <<>> /\ p[3] \in {1, 3}) =>
  LET y == SeriesN(F(x), 4, CT, ST)                  \* 400 times the series
      z == [t \in 1..4 |-> y[t] \div 100] IN
  \A k \in 2..3 : LET w == Rotate(Spectrum(z, CT, ST)[k], Conj[k]) IN
    w = <<4 * Spectrum(x, CT, ST)[k][1], 4 * Spectrum(x, CT, ST)[k][2]>>
Emit == p = <<1, 1, 1>> => CSVWrite("%1$s", <<ToJson([x |-> x])>>, IOEnv.STIM)
=============================================================================
