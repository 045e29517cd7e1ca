------------------------------ MODULE Antenna_MC ------------------------------
(* All sky positions and polarization angles on a grid, against the basis of *)
(* detector tensors: symmetries of the responses; geometry of the known      *)
(* detectors; delays and circular shifts.                                    *)
EXTENDS Antenna, Json, CSV, IOUtils
VARIABLES sky, modes
vars == <<sky, modes>>
Thorough == IOEnv.TIER = "thorough"
G == IF Thorough THEN 16 ELSE 8
Basis == {<<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0, 1>>,
          <<0, 1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 0, 1, 0, 0, 0, 0, 0, 0>>,
          <<0, 0, 0, 1, 0, 0, 0, 0, 0>>, <<2, -1, 0, 3, 1, -2, 0, 1, -1>>}
Init == sky = [th |-> -1, ps |-> 0, ph |-> 0] /\ modes = <<>>
Point == UNCHANGED modes /\ sky.th < 0
  /\ IF sky.ps = 0 THEN sky' \in [th : {-1}, ps : 1..G, ph : 1..G]
     ELSE \E t \in 0..(G \div 2) : sky' = [th |-> t, ps |-> sky.ps - 1, ph |-> sky.ph - 1]
Mode == sky.th >= 0 /\ Len(modes) < 3 /\ UNCHANGED sky /\ \E m \in Modes : modes' = Append(modes, m)
Next == Point \/ Mode
Spec == Init /\ [][Next]_vars
Fresh == modes = <<>> /\ sky.th >= 0
A(k) == <<k, G>>
R(mode, ps, D) == Response(mode, A(sky.th), A(ps), A(sky.ph), D, 1)
N(a, b, D) == Near(a, b, 6 * Size1(D) + 6)
Eighth == G \div 8
Turn == Fresh => \A D \in Basis :
  /\ N(R("plus", sky.ps + 2 * Eighth, D), -R("plus", sky.ps, D), D) /\ N(R("cross", sky.ps + 2 * Eighth, D), -R("cross", sky.ps, D), D)
  /\ N(R("breathing", sky.ps + Eighth, D), R("breathing", sky.ps, D), D)
Exchange == Fresh => \A D \in Basis :
  N(R("plus", sky.ps + Eighth, D), R("cross", sky.ps, D), D) /\ N(R("cross", sky.ps + Eighth, D), -R("plus", sky.ps, D), D)
Trace0 == Fresh => LET I == <<1, 0, 0, 0, 1, 0, 0, 0, 1>> IN
  N(R("plus", sky.ps, I), 0, I) /\ N(R("cross", sky.ps, I), 0, I) /\ N(R("breathing", sky.ps, I), 2 * US, I)
\* nothing along the direction of propagation
Transverse == Fresh => \A m \in Modes : \A j \in 1..3 :
  LET P == PolTensor(m, VecM(A(sky.th), A(sky.ps), A(sky.ph)), VecN(A(sky.th), A(sky.ps), A(sky.ph)))
      o == <<Ux(SinA(A(sky.th)), CosA(A(sky.ph))), Ux(SinA(A(sky.th)), SinA(A(sky.ph))), CosA(A(sky.th))>>
  IN  Near(SumI(LAMBDA i : Ux(P[i][j], o[i]), 1, 3), 0, 15)
Geometry == Fresh /\ sky.th = 0 /\ sky.ps = 0 => \A n \in Known : LET g == Geo(n)  D == DetTensor(g.x, g.y) IN
  /\ \A w \in {g.x, g.y} : Near(SumI(LAMBDA i : ((w[i] \div 10) * (w[i] \div 10)) \div 1000, 1, 3), 100000, 60)
  /\ Near(SumI(LAMBDA i : ((g.x[i] \div 10) * (g.y[i] \div 10)) \div 1000, 1, 3), 0, 300)
  /\ Near(D[1] + D[5] + D[9], 0, 10) /\ D[2] = D[4] /\ D[3] = D[7] /\ D[6] = D[8]
  /\ Near(SumI(LAMBDA i : (g.v[i] \div 1000) * (g.v[i] \div 1000), 1, 3), 6371 * 6371, 200000)
\* opposite places are reached as much earlier as later; nothing at the origin
Delays == Fresh /\ sky.ps = 0 => \A sr \in {16, 2048} : \A n \in Known : LET g == Geo(n).v
     d(w) == Delay(A(sky.th), A(sky.ph), w, sr) IN
  /\ d(<<0, 0, 0>>) = 0
  /\ Near(d([i \in 1..3 |-> -g[i]]), -d(g), 4) /\ Abs(d(g)) <= 22 * sr
  /\ \A k \in -3..3 : Trunc(-(d(g) + k)) = -Trunc(d(g) + k) /\ Abs(Trunc(d(g) + k)) * 1000 <= Abs(d(g) + k)
Rolls == Fresh /\ sky.ps = 0 /\ sky.th = 0 => \A n \in 1..4 : \A j, k \in -5..5 : LET x == [i \in 1..n |-> i] IN
  /\ Roll(Roll(x, j), k) = Roll(x, j + k) /\ Roll(x, n) = x /\ Roll(x, 0) = x /\ (n > 1 => Roll(x, 1)[2] = x[1])
Emit == Len(modes) > 0 => CSVWrite("%1$s", <<ToJson([th |-> sky.th, ps |-> sky.ps, ph |-> sky.ph, g |-> G, m |-> modes])>>, IOEnv.STIM)
=============================================================================
