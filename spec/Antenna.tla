------------------------------- MODULE Antenna --------------------------------
(* Interferometer responses to gravitational wave polarizations, arrival     *)
(* delays and detector geometry. An angle is a pair <<n, d>>: n / d turns.   *)
(* Unit vectors and responses are scaled by US.                              *)
EXTENDS Trig
US == 10000
Ux(a, b) == RoundDiv(a * b, US)
CosA(g) == RoundDiv(CosN(g[1], g[2]), 3)
SinA(g) == RoundDiv(SinN(g[1], g[2]), 3)
\* ------------------------------------------------------------- polarizations
\* u along the meridian, v along the parallel of the sky position; m and n are
\* u and v turned by the polarization angle
VecU(th, ph) == <<Ux(CosA(ph), CosA(th)), Ux(CosA(th), SinA(ph)), -SinA(th)>>
VecV(th, ph) == <<-SinA(ph), CosA(ph), 0>>
VecM(th, ps, ph) == LET u == VecU(th, ph)  v == VecV(th, ph) IN [i \in 1..3 |-> -Ux(u[i], SinA(ps)) - Ux(v[i], CosA(ps))]
VecN(th, ps, ph) == LET u == VecU(th, ph)  v == VecV(th, ph) IN [i \in 1..3 |-> -Ux(u[i], CosA(ps)) + Ux(v[i], SinA(ps))]
Modes == {"plus", "cross", "breathing"}
PolTensor(mode, m, n) == [i \in 1..3 |-> [j \in 1..3 |->
  CASE mode = "plus" -> Ux(m[i], m[j]) - Ux(n[i], n[j])
    [] mode = "cross" -> Ux(m[i], n[j]) + Ux(n[i], m[j])
    [] mode = "breathing" -> Ux(m[i], m[j]) + Ux(n[i], n[j])]]
\* detector tensor given as nine numbers, scaled by ds
Contract(P, D, ds) == SumI(LAMBDA k : RoundDiv(P[k \div 3 + 1][(k % 3) + 1] * D[k + 1], ds), 0, 8)
Response(mode, th, ps, ph, D, ds) == Contract(PolTensor(mode, VecM(th, ps, ph), VecN(th, ps, ph)), D, ds)
Size1(D) == SumI(LAMBDA k : Abs(D[k + 1]), 0, 8)
\* responses for one source: one per mode and detector
Responses(modes, th, ps, ph, Ds, ds) ==
  LET m == TLCEval(VecM(th, ps, ph))  n == TLCEval(VecN(th, ps, ph)) IN
  [p \in 1..Len(modes) |-> LET P == TLCEval(PolTensor(modes[p], m, n)) IN [i \in 1..Len(Ds) |-> Contract(P, Ds[i], ds)]]
\* ------------------------------------------------------------------- geometry
\* arms in hundred-thousandths, vertices in metres
Known == {"H1", "L1", "V1", "K1"}
Geo(name) ==
  CASE name = "H1" -> [x |-> <<-22389, 79983, 55690>>, y |-> <<-91398, 2609, -40492>>, v |-> <<-2161415, -3834695, 4600350>>]
    [] name = "L1" -> [x |-> <<-95457, -14158, -26219>>, y |-> <<29774, -48791, -82054>>, v |-> <<-74276, -5496284, 3224257>>]
    [] name = "V1" -> [x |-> <<-70046, 20849, 68256>>, y |-> <<-5379, -96908, 24080>>, v |-> <<4546374, 842990, 4378577>>]
    [] name = "K1" -> [x |-> <<-37590, -83616, 39942>>, y |-> <<71644, 1114, 69756>>, v |-> <<-3777336, 3484898, 3765314>>]
\* half the difference of the outer products of the arms, scaled by 10^4
DetTensor(x, y) == [k \in 1..9 |-> LET i == (k - 1) \div 3 + 1  j == ((k - 1) % 3) + 1 IN
  RoundDiv(MulDivS(x[j], x[i], 1000) - MulDivS(y[j], y[i], 1000), 2000)]
\* ---------------------------------------------------------------------- delay
Light == 299792                      \* km / s: delays come in thousandths
\* samples (thousandths) by which the signal at the vertex lags the geocentre
Delay(th, ph, v, sr) ==
  LET o == <<Ux(SinA(th), CosA(ph)), Ux(SinA(th), SinA(ph)), CosA(th)>> IN
  -MulDivS(SumI(LAMBDA i : MulDivS(v[i], o[i], US), 1, 3), sr, Light)
DelayTol(v, sr) == 3 + MulDiv((Abs(v[1]) + Abs(v[2]) + Abs(v[3])) \div 4000, sr, Light)
Trunc(d) == IF d >= 0 THEN d \div 1000 ELSE -((-d) \div 1000)
\* circular shift to later times by k samples
Roll(x, k) == [t \in 1..Len(x) |-> x[((t - 1 - k) % Len(x)) + 1]]
=============================================================================
