--------------------------- MODULE QTransform_MC ------------------------------
(* Life of one transform: computing, querying and interpolating data sets in *)
(* any order. A set is known by its energies; answers follow the latest one. *)
EXTENDS QTransform, Json, CSV, IOUtils
VARIABLES tiles, hist, ans
vars == <<tiles, hist, ans>>
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 5 ELSE 4
\* maxima of three sets: [B, C, m]
Sets == <<[B |-> 1, C |-> 1, m |-> <<<<3, 1, 2>>>>],
          [B |-> 2, C |-> 1, m |-> <<<<4, 7, 4>>, <<5, 4, 6>>>>],
          [B |-> 2, C |-> 2, m |-> <<<<1, 9, 8>>, <<9, 1, 1>>, <<2, 2, 10>>, <<8, 8, 1>>>>]>>
Dims == {"both", "neither", "batch", "channel"}
Init == tiles = 0 /\ hist = <<>> /\ ans = <<>>
Compute(k) == tiles' = k /\ ans' = <<>> /\ hist' = Append(hist, [op |-> "compute", k |-> k, dim |-> ""])
Forward(k) == tiles' = k /\ ans' = <<k>> /\ hist' = Append(hist, [op |-> "forward", k |-> k, dim |-> ""])
Query(dim) == /\ ans' = IF tiles = 0 THEN <<>> ELSE Energy(Sets[tiles].m, Sets[tiles].B, Sets[tiles].C, 1..3, dim)
              /\ hist' = Append(hist, [op |-> "energy", k |-> 0, dim |-> dim]) /\ UNCHANGED tiles
Interp == ans' = <<tiles>> /\ hist' = Append(hist, [op |-> "interp", k |-> 0, dim |-> ""]) /\ UNCHANGED tiles
\* a refused computation leaves the tiles there were
Computing == {"compute", "forward"}
Refused == /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op \in Computing
           /\ ans' = <<>> /\ hist' = Append(hist, [op |-> "refused", k |-> 0, dim |-> ""]) /\ UNCHANGED tiles
Next == Len(hist) < Depth /\ (Interp \/ Refused \/ (\E k \in 1..3 : Compute(k) \/ Forward(k)) \/ \E d \in Dims : Query(d))
Spec == Init /\ [][Next]_vars
\* the latest data decide, whatever came before
Latest == LET c == {i \in 1..Len(hist) : hist[i].op \in {"compute", "forward"}} IN
  tiles = IF c = {} THEN 0 ELSE hist[MaxOf(c)].k
Answers == (hist # <<>> /\ hist[Len(hist)].op = "energy" /\ tiles # 0) =>
  LET s == Sets[tiles]  d == hist[Len(hist)].dim IN
  /\ Len(ans) = ProdSeq(EnergyShape(s.B, s.C, d))
  /\ MaxOf({ans[i] : i \in 1..Len(ans)}) = Energy(s.m, s.B, s.C, 1..3, "both")[1]
Ranges == hist = <<>> => \A k \in 1..3 : \A R \in SUBSET (1..3) : R # {} =>
  \A d \in Dims : LET a == Energy(Sets[k].m, Sets[k].B, Sets[k].C, R, d)  f == Energy(Sets[k].m, Sets[k].B, Sets[k].C, 1..3, d) IN
    \A i \in 1..Len(a) : a[i] <= f[i]
Bilinear == hist = <<>> => \A n \in 1..4 : \A t \in 1..5 :
  /\ \A x \in [1..n -> {0, 60, 120}] :
       LET y == Resize(x, t) IN
       /\ (n = t => y = x)
       /\ \A i \in 1..t : \E a, b \in 1..n : x[a] <= y[i] /\ y[i] <= x[b]
       /\ ((\A i \in 1..(n - 1) : x[i] <= x[i + 1]) => \A i \in 1..(t - 1) : y[i] <= y[i + 1])
  /\ LET up == [i \in 1..n |-> 120 * i]  y == Resize(up, t) IN \A i \in 1..t : Near(y[i] + y[t + 1 - i], 120 * (n + 1), 2)
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([h |-> hist])>>, IOEnv.STIM)
=============================================================================
