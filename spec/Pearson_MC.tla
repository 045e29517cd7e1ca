----------------------------- MODULE Pearson_MC -------------------------------
EXTENDS Pearson, Json, CSV, IOUtils
VARIABLES x, y, m
vars == <<x, y, m>>
Thorough == IOEnv.TIER = "thorough"
V == -1..1
N == IF Thorough THEN 5 ELSE 4
Init == x \in [1..N -> V] /\ y = <<>> /\ m = 0
Next == y = <<>> /\ y' \in [1..N -> V] /\ m' \in (IF Thorough THEN 1..(N + 1) ELSE {1, N}) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Ks == 0..(2 * m)
CauchySchwarz == y # <<>> => \A k \in Ks : LET s == Shifted(x, m, k) IN Cov(s, y) * Cov(s, y) <= Cov(s, s) * Cov(y, y)
Bounded == y # <<>> => \A k \in Ks : LET s == Shifted(x, m, k) IN Defined(s, y) => Near(Coef(s, y), 0, 1001)
Centre == y # <<>> => Shifted(x, m, m) = x /\ (Defined(x, x) => Near(Coef(x, x), 1000, 1))
ScaleBlind == y # <<>> => \A k \in Ks : LET s == Shifted(x, m, k) IN
  Defined(s, y) => Near(Coef(s, [i \in 1..N |-> 3 * y[i] - 2]), Coef(s, y), 1)
                   /\ Near(Coef(s, [i \in 1..N |-> -y[i]]), -Coef(s, y), 1)
Past == y # <<>> => (m >= N => Shifted(x, m, 0) = Zeros(N) /\ Shifted(x, m, 2 * m) = Zeros(N))
\* shifting x by one within its zeros is shifting the result by one
MovesAlong == (y # <<>> /\ x[N] = 0) => \A k \in 1..(2 * m) :
  Shifted(<<0>> \o [i \in 1..(N - 1) |-> x[i]], m, k - 1) = [i \in 1..N |-> IF k + i - 2 - m \in 1..N THEN x[k + i - 2 - m] ELSE 0]
Emit == y # <<>> => CSVWrite("%1$s", <<ToJson([x |-> x, y |-> y, m |-> m])>>, IOEnv.STIM)
=============================================================================
