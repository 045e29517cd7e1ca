------------------------- MODULE QTransform_Trace -----------------------------
EXTENDS QTransform, TraceKit
VARIABLES l, bad, cur, tiles            \* cur: line of the transform in use
vars == <<l, bad, cur, tiles>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
N == Trace[cur]
Set == N.sets[tiles]
Lead(k) == LET s == N.sets[k].lead IN s
BC(s) == CASE Len(s) = 0 -> <<1, 1>> [] Len(s) = 1 -> <<1, s[1]>> [] OTHER -> s
Close(a, b) == Near(a, b, 3 + MaxI(Abs(a), Abs(b)) \div 3000)
\* images of all series of set k, against those each gets alone
Peak(s) == MaxOf({Abs(s[i]) : i \in 1..Len(s)})
SameImages(set, F, T, sh, d) ==
  IF sh # set.lead \o <<F, T>> THEN "axes of the output"
  ELSE IF \E s \in 1..ProdSeq(set.lead) : LET o == set.outs[s]  tol == 3 + Peak(o) \div 2000 IN
         \E i \in 1..(F * T) : ~Near(d[(s - 1) * F * T + i], o[i], tol) THEN "not the transform of the latest data"
  ELSE ""

New == Is("new") /\ cur' = l /\ tiles' = 0 /\ Verdict(IF e.err # "" THEN "constructor raised" ELSE IF e.argmod THEN "options modified" ELSE "")
Compute == Is("compute") /\ tiles' = e.k /\ UNCHANGED cur /\ Verdict(IF e.err # "" THEN "call raised" ELSE IF e.mutated THEN "input modified" ELSE "")
Interp == Is("interp") /\ UNCHANGED <<cur, tiles>> /\ Verdict(
  IF tiles = 0 THEN IF e.err = "" THEN "answered before any computation" ELSE ""
  ELSE IF e.err # "" THEN "call raised" ELSE SameImages(Set, N.F, N.T, e.y_sh, e.y_d))
Forward == Is("forward") /\ tiles' = e.k /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "call raised" ELSE IF e.mutated THEN "input modified" ELSE SameImages(N.sets[e.k], N.F, N.T, e.y_sh, e.y_d))
EnergyOk(m, bc, freqs) ==
  LET opt == {InRange(freqs, e.lo, e.hi, a, b) : a, b \in BOOLEAN} \ {{}}
      sure == InRange(freqs, e.lo, e.hi, FALSE, FALSE) IN
  IF opt = {} THEN ""
  ELSE IF e.err # "" THEN IF sure = {} THEN "" ELSE "energy search raised"
  ELSE IF e.y_sh # EnergyShape(bc[1], bc[2], e.dim) THEN "shape of the energies"
  ELSE IF ~\E R \in opt : LET w == Energy(m, bc[1], bc[2], R, e.dim) IN \A i \in 1..Len(w) : Close(w[i], e.y_d[i]) THEN "not the maximum over the tiles of the range"
  ELSE ""
Query == Is("energy") /\ UNCHANGED <<cur, tiles>> /\ Verdict(
  IF tiles = 0 THEN IF e.err = "" THEN "answered before any computation" ELSE ""
  ELSE IF e.dim \notin {"both", "neither", "batch", "channel"} THEN IF e.err = "" THEN "unknown dimension accepted" ELSE ""
  ELSE EnergyOk(Set.emax, BC(Set.lead), N.freqs))

\* ---- scan: planes with their energies and images, in order of Q
PlaneMax(p, R) == Over(p.emax, 1..Len(p.emax), R)
ScanOk ==
  IF e.err # "" THEN IF \E p \in 1..Len(e.planes) : InRange(e.planes[p].freqs, e.lo, e.hi, FALSE, FALSE) = {} THEN "" ELSE "scan raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE LET rs == [p \in 1..Len(e.planes) |-> InRange(e.planes[p].freqs, e.lo, e.hi, FALSE, TRUE)]
           ok == {p \in 1..Len(e.planes) : rs[p] # {}}
           m == TLCEval([p \in ok |-> PlaneMax(e.planes[p], rs[p])])
           top == MaxOf({m[p] : p \in ok})
           near == {p \in ok : m[p] >= top - 5 - top \div 500} IN
       IF \A p \in near : SameImages([lead |-> e.lead, outs |-> e.planes[p].outs], e.F, e.T, e.y_sh, e.y_d) # "" THEN "not the plane with the greatest energy" ELSE ""
Scan == Is("scan") /\ UNCHANGED <<cur, tiles>> /\ Verdict(ScanOk)
\* planes: geometric, centred in the range, no coarser than the mismatch
Planes == Is("planes") /\ UNCHANGED <<cur, tiles>> /\ Verdict(
  LET q == e.qs  n == Len(e.qs) IN
  IF n = 0 THEN "no plane"
  ELSE IF e.argmod THEN "options modified"
  ELSE IF \E i \in 1..(n - 1) : q[i + 1] <= q[i] THEN "planes out of order"
  ELSE IF q[1] <= e.lo \/ q[n] >= e.hi THEN "plane outside the range"
  ELSE IF \E i \in 1..n : ~Near(MulDiv(q[i], q[n + 1 - i], e.lo), e.hi, 3 + e.hi \div 200) THEN "planes not centred in the range"
  ELSE IF \E i \in 1..(n - 2) : ~Near(MulDiv(q[i], q[i + 2], q[i + 1]), q[i + 1], 3 + q[i + 1] \div 200) THEN "planes not evenly spaced"
  ELSE IF e.used # Cardinality({i \in 1..n : q[i] < e.maxq}) THEN "planes beyond the largest Q"
  ELSE "")
\* ---- frequencies of a transform, in 1/1000 of the resolution 1/duration
Freqs == Is("freqs") /\ UNCHANGED <<cur, tiles>> /\ Verdict(
  IF e.err # "" THEN "constructor raised"
  ELSE IF e.f = <<>> \/ \E i \in 1..Len(e.f) : e.f[i] % 1000 # 0 THEN "frequency not on the grid of the data"
  ELSE IF \E i \in 1..(Len(e.f) - 1) : e.f[i + 1] <= e.f[i] THEN "frequencies not increasing"
  ELSE IF e.f[1] < e.lo - 1000 \/ e.f[Len(e.f)] > e.hi THEN "frequency outside the range"
  ELSE "")

\* ---- one row of tiles
Median(s) == LET t == SortSeq(s, LAMBDA a, b : a < b)  n == Len(s) IN (t[n \div 2] + t[n \div 2 + 1]) \div 2
TileOk ==
  IF e.err # "" THEN "call raised"
  ELSE LET n == Len(e.e)  h == Half(e.b, e.r)  ct == CosTab(n)  st == SinTab(n)
           X == TLCEval([k \in 1..Len(e.re) |-> <<e.re[k], e.im[k]>>])
           W == Windowed(X, e.b, e.r)
           E900 == TLCEval([t \in 1..n |-> Energy900(W, h, t - 1, n, ct, st)])
           want(t) == MulDiv(E900[t], 315 * e.r, 128 * e.f)
           top == MaxOf({E900[t] : t \in 1..n})  tol == MulDiv(10 + 4 * Isqrt(top) + top \div 200, 315 * e.r, 128 * e.f) IN
       \* n: least power of two resolving the mismatch: deltam = 0.4
       IF LET x == MulDiv(6283185, e.b * 100, e.r * 13266) IN          \* 10^4 * 2 pi b / (r sqrt(11) 0.4) 
            ~(n * 10000 >= x - x \div 10000 /\ (n \div 2) * 10000 < x + x \div 10000) THEN "number of tiles"
       ELSE IF Pow(2, Len(SelectSeq(<<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>, LAMBDA p : p <= n))) # n THEN "number of tiles"
       ELSE IF \E t \in 1..n : ~Near(e.e[t], want(t), 30 + tol) THEN "energy of a tile"
       ELSE IF SumSeq(E900) \div n < 20000 THEN ""
       ELSE IF \E t \in 1..n : ~Near(e.mean[t], MulDiv(want(t), 1000, MaxI(1, SumSeq([i \in 1..n |-> want(i)]) \div n)), 30 + e.mean[t] \div 30) THEN "mean normalisation"
       ELSE LET med == Median(e.e) IN
            IF med > 2000 /\ \E t \in 1..n : ~Near(e.median[t], MulDiv(e.e[t], 1000, med), 5 + e.median[t] \div 200) THEN "median normalisation"
       ELSE ""
Tile == Is("tile") /\ UNCHANGED <<cur, tiles>> /\ Verdict(TileOk)
\* ---- image of known tiles
Img == Is("image") /\ UNCHANGED <<cur, tiles>> /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE LET w == Image(e.rows, e.F, e.T)  tol == 4 + Peak(w) \div 2000 IN
       IF Len(w) # Len(e.y_d) \/ \E i \in 1..Len(w) : ~Near(w[i], e.y_d[i], tol) THEN "image is not the interpolation of the tiles" ELSE "")
\* ---- where the loudest tile shows in the image: rows are evenly spaced in
\* the logarithm of frequency, times evenly
Loudest(s) == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[j] <= s[i]
Tone == Is("tone") /\ UNCHANGED <<cur, tiles>> /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE LET r == Loudest(e.rows)  k == Loudest(e.tiles)  t == Loudest(e.cols) IN
       IF ~Near((2 * r - 1) * Len(e.tiles), (2 * k - 1) * Len(e.rows), 3 * MaxI(Len(e.rows), Len(e.tiles))) THEN "loudest tile shows at another frequency"
       ELSE IF ~Near(t * 1000, e.at * Len(e.cols), 1600 + 60 * Len(e.cols)) THEN "loudest tile shows at another time" ELSE "")
\* refused within a life: the tiles stay, as later answers show
Refused == Is("refused") /\ UNCHANGED <<cur, tiles>> /\ Verdict(IF e.err = "" THEN "accepted what it cannot transform" ELSE IF e.mutated THEN "input modified" ELSE "")
Refuse == Is("refuse") /\ UNCHANGED <<cur, tiles>> /\ Verdict(Refusal(e.err))
Other == l <= Len(Trace) /\ e.op \notin {"new", "compute", "interp", "forward", "energy", "scan", "planes", "freqs", "tile", "image", "tone", "refuse", "refused"}
  /\ UNCHANGED <<cur, tiles>> /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0 /\ tiles = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur, tiles>>
Spec == Init /\ [][New \/ Compute \/ Interp \/ Forward \/ Query \/ Scan \/ Planes \/ Freqs \/ Tile \/ Img \/ Tone \/ Refuse \/ Refused \/ Other \/ Finish]_vars
=============================================================================
