------------------------------- MODULE Snr_MC -------------------------------
(* Length four (exact Gaussian integers): the sum is additive over bands,    *)
(* quadratic in the response, blind to circular shifts, and Parseval holds.  *)
EXTENDS Snr, Json, CSV, IOUtils, TLC
VARIABLES x, w, hp, lp
vars == <<x, w, hp, lp>>
Thorough == IOEnv.TIER = "thorough"
V == IF Thorough THEN -2..2 ELSE -1..1
Cuts == {<<>>} \cup {<<a, 2>> : a \in 0..5}       \* rate 4: bins at 0, 1, 2 Hz
Init == x \in {y \in [1..4 -> V] : Thorough \/ y[1] >= 0} /\ w \in {u \in [1..3 -> {1, 3}] : Thorough \/ u[1] = 1}
        /\ hp \in Cuts /\ lp \in (IF Thorough THEN Cuts ELSE Cuts \ {<<0, 2>>, <<1, 2>>, <<5, 2>>})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
CT == CosTab(4)
ST == SinTab(4)
R(y, h, l) == Rho2(y, w, Band(4, 4, h, l), 4, CT, ST)
All == R(x, <<>>, <<>>)
Parseval == Power(x, 0, CT, ST) + 2 * Power(x, 1, CT, ST) + Power(x, 2, CT, ST) = 400 * SumI(LAMBDA i : x[i] * x[i], 1, 4)
Additive == (hp # <<>>) => Near(R(x, hp, <<>>) + R(x, <<>>, hp), All, 1)
Nested == R(x, hp, lp) <= R(x, hp, <<>>) /\ R(x, hp, <<>>) <= All
Quadratic == Near(R([i \in 1..4 |-> 3 * x[i]], hp, lp), 9 * R(x, hp, lp), 9)
ShiftBlind == R(<<x[4], x[1], x[2], x[3]>>, hp, lp) = R(x, hp, lp)
EmptyBand == (hp # <<>> /\ lp # <<>> /\ hp[1] >= lp[1]) => R(x, hp, lp) = 0
Emit == (x[1] # 0 /\ x # [i \in 1..4 |-> x[1]]) => CSVWrite("%1$s", <<ToJson([x |-> x, w |-> w, hp |-> hp, lp |-> lp])>>, IOEnv.STIM)
=============================================================================
