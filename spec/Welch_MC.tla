------------------------------ MODULE Welch_MC ------------------------------
(* Segments of four samples (exact Gaussian integers) of all short series.   *)
EXTENDS Welch, Json, CSV, IOUtils, TLC
VARIABLES x, s, med
vars == <<x, s, med>>
Thorough == IOEnv.TIER = "thorough"
T == IF Thorough THEN 6 ELSE 5
V == -1..1
\* (chosen in two steps so that several workers share the evaluation)
Init == x = <<>> /\ s \in 1..3 /\ med \in BOOLEAN
Next == x = <<>> /\ x' \in [1..T -> V] /\ UNCHANGED <<s, med>>
Spec == Init /\ [][Next]_vars
Ones == [j \in 1..4 |-> 10000]
Wins == {Ones, <<10000, 20000, 30000, 10000>>, Hann(4)}
P(y, w, fast) == Psd(y, 4, s, w, fast, med)
Close(a, b) == \A k \in 1..3 : Near(a[k][1], b[k][1], a[k][2] + b[k][2])
SegmentsFit == x # <<>> =>
  /\ (NSeg(T, 4, s) - 1) * s + 4 <= T
               /\ NSeg(T, 4, s) * s + 4 > T
OffsetBlind == x # <<>> =>
  \A w \in Wins : \A f \in BOOLEAN : Close(P(x, w, f), P([i \in 1..T |-> x[i] + 7], w, f))
\* whole band power of mean-removed, untapered segments (Parseval)
Parseval == (x # <<>> /\ ~med) =>
  LET g == Segments(x, 4, s, Ones, FALSE)  p == P(x, Ones, FALSE) IN
   Near(p[1][1] + p[2][1] + p[3][1], RoundDiv(SumI(LAMBDA i : SumI(LAMBDA j : g[i][j] * g[i][j], 1, 4), 1, Len(g)), 25 * Len(g)), 60)
\* with a Hann window both variants agree above the two lowest bins
FastAgrees == x # <<>> =>
  LET a == P(x, Hann(4), TRUE)[3]  b == P(x, Hann(4), FALSE)[3] IN Near(a[1], b[1], a[2])
CrossOfSelf == x # <<>> =>
  LET c == Csd(x, x, 4, s, Hann(4), med)  p == P(x, Hann(4), TRUE) IN
  \A k \in 1..3 : c[k][1] = p[k][1] /\ c[k][2] = 0
CrossSwap == x # <<>> =>
  LET y == [i \in 1..T |-> x[T + 1 - i] * i]  a == Csd(x, y, 4, s, Ones, med)  b == Csd(y, x, 4, s, Ones, med) IN
  \A k \in 1..3 : a[k][1] = b[k][1] /\ a[k][2] = -b[k][2]
\* one segment: the bias factor is one
OneSegment == (x # <<>> /\ NSeg(T, 4, s) = 1) => Psd(x, 4, s, Ones, FALSE, TRUE) = Psd(x, 4, s, Ones, FALSE, FALSE)
Emit == (x # <<>> /\ x[1] # x[2] /\ x[3] # x[4]) => CSVWrite("%1$s", <<ToJson([x |-> x, s |-> s, med |-> med])>>, IOEnv.STIM)
=============================================================================
