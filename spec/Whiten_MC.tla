----------------------------- MODULE Whiten_MC ------------------------------
EXTENDS Whiten, Json, CSV, IOUtils, TLC
VARIABLES n, a, pad, hp, lp
vars == <<n, a, pad, hp, lp>>
Thorough == IOEnv.TIER = "thorough"
Rate == 8
Cuts == {<<>>} \cup {<<k, 1>> : k \in {0, 2, 4}} \cup (IF Thorough THEN {<<1, 1>>, <<3, 1>>} ELSE {})
Init == n \in (IF Thorough THEN {6, 7, 8, 10} ELSE {6, 7, 8}) /\ pad \in 1..3 /\ 2 * pad < n /\ a = <<>> /\ hp \in Cuts /\ lp \in Cuts
Next == a = <<>> /\ a' \in [1..Bins(n) -> IF Thorough THEN 1..3 ELSE {1, 3}] /\ UNCHANGED <<n, pad, hp, lp>>
Spec == Init /\ [][Next]_vars
W == Hann(2 * pad)
G == Gain(Band(a, n, Rate, hp, lp), n, W)
R == Response(G, n)
X == [i \in 1..n |-> ((7 * i * i) % 11) - 4]
Y == Whitened(X, R, Rate)
Ok == a # <<>>
\* zero phase: the response is symmetric in time
ZeroPhase == Ok => \A i \in 1..(n - 1) : Near(R[i + 1], R[n - i + 1], 4)
\* constant offsets are ignored
OffsetBlind == Ok => NearSeq(Whitened([i \in 1..n |-> X[i] + 5], R, Rate), Y, 2)
\* additive
Additive == Ok => LET Z == [i \in 1..n |-> ((i * 5) % 7) - 3] IN
  LET s == Whitened([i \in 1..n |-> X[i] + Z[i]], R, Rate)  z == Whitened(Z, R, Rate) IN
  \A i \in 1..n : Near(s[i], Y[i] + z[i], 4)
\* empty band: nothing is left
EmptyBand == (Ok /\ hp # <<>> /\ lp # <<>> /\ BinOf(hp, n, Rate) >= BinOf(lp, n, Rate)) => \A i \in 1..n : Abs(Y[i]) <= 2
\* flat spectrum, nothing cut (no Nyquist bin dropped): the data, scaled
Flat == (Ok /\ hp = <<>> /\ lp = <<>> /\ Bins(n) % 2 = 0 /\ \A k \in 1..Bins(n) : a[k] = 1) =>
  LET S == SumSeq(X) IN
  \A i \in 1..n : Near(Y[i], RoundDiv((n * X[i] - S) * Norm(Rate), 10 * n), 12)
\* twice the amplitude of the noise halves the output: gains are homogeneous
Homogeneous == Ok => LET g2 == Gain(Band([k \in 1..Bins(n) |-> 2 * a[k]], n, Rate, hp, lp), n, W) IN
  \A k \in 1..Bins(n) : Near(g2[k], 2 * G[k], 6)
Emit == (Ok /\ hp # <<0, 1>> /\ lp # <<0, 1>>) => CSVWrite("%1$s", <<ToJson([n |-> n, a |-> a, pad |-> pad, hp |-> hp, lp |-> lp])>>, IOEnv.STIM)
=============================================================================
