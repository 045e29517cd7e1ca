------------------------------- MODULE Adhoc_MC -------------------------------
(* Time grids, frequencies, quality factors, phases and orientations: shape, *)
(* symmetry and energy of the waveforms.                                     *)
EXTENDS Adhoc, Json, CSV, IOUtils
VARIABLES g, r, step
vars == <<g, r, step>>
Thorough == IOEnv.TIER = "thorough"
Grids == {[fs |-> 64, dn |-> 1, dd |-> 2], [fs |-> 32, dn |-> 45, dd |-> 32], [fs |-> 100, dn |-> 1, dd |-> 4], [fs |-> 16, dn |-> 1, dd |-> 16], [fs |-> 48, dn |-> 1, dd |-> 1]}
         \cup (IF Thorough THEN {[fs |-> 50, dn |-> 3, dd |-> 1], [fs |-> 128, dn |-> 9, dd |-> 16]} ELSE {})
Qs == {<<3, 1>>, <<1, 1>>, <<9, 2>>, <<20, 1>>, <<2, 1>>, <<12, 1>>}
Init == step = 0 /\ g \in Grids /\ r = [f |-> 1]
Source == step = 0 /\ step' = 1 /\ UNCHANGED g
  /\ \E f \in {k \in {2, 4, 5, 8, 10, 16, 20, 24} : 2 * k <= g.fs} : \E q \in Qs : r' = [f |-> f, qn |-> q[1], qd |-> q[2]]
Orient == step = 1 /\ step' = 2 /\ UNCHANGED g
  /\ \E p \in 0..7 : \E e \in {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<4, 5>>} : \E i \in {0, 2, 4, 5, 8} :
       /\ (Thorough \/ (p + i + e[1] + e[2] + r.f) % 2 = 0)
       /\ r' = [f |-> r.f, qn |-> r.qn, qd |-> r.qd, p |-> p, en |-> e[1], ed |-> e[2], hn |-> 1 + p, i |-> i, ne |-> 1 + (p % 3), dist |-> 1 + i,
                w |-> 1000 * r.f * (1 + i)]
Next == Source \/ Orient
Spec == Init /\ [][Next]_vars
Done == step = 2
N == Samples(g.dn, g.dd, g.fs)
\* the two sides of the middle agree up to a sign given by the phase
Mirror == Done => LET x == TLCEval(SgPlus(r, g.fs, N))  y == TLCEval(SgCross(r, g.fs, N)) IN
  /\ r.p % 4 = 0 => \A k \in 1..(N - 1) : Near(x[k + 1], x[N - k + 1], SgTol(SgPlusAmp(r))) /\ Near(y[k + 1], -y[N - k + 1], SgTol(SgCrossAmp(r)))
  /\ r.p % 4 = 2 => \A k \in 1..(N - 1) : Near(x[k + 1], -x[N - k + 1], SgTol(SgPlusAmp(r))) /\ Near(y[k + 1], y[N - k + 1], SgTol(SgCrossAmp(r)))
Flip == Done => LET h == [r EXCEPT !.p = (r.p + 4) % 8]  x == SgPlus(r, g.fs, N)  y == SgPlus(h, g.fs, N) IN
  \A k \in 1..N : Near(x[k], -y[k], SgTol(SgPlusAmp(r)))
Round == Done => /\ (r.en = r.ed => SgCrossAmp(r) = 0)
                 /\ (r.en = 0 /\ r.qn >= 3 * r.qd => Near(SgCrossAmp(r), SgPlusAmp(r), SgTol(SgPlusAmp(r))))
\* the root sum square of both polarizations is hrss when the window holds it all
Wide == Envelope(r, g.fs, N, 0) < 30
Energy == Done /\ Wide /\ r.qn >= 3 * r.qd /\ 4 * r.f <= g.fs /\ r.f >= (4 * r.qn) \div r.qd =>
  LET x == TLCEval(SgPlus(r, g.fs, N))  y == TLCEval(SgCross(r, g.fs, N))
      q(v) == (v \div (20 * r.hn)) * (v \div (20 * r.hn))
  IN  Near(SumI(LAMBDA k : q(x[k]) + q(y[k]), 1, N), 10000 * g.fs, 300 * g.fs)
\* one cycle multiplies a ringdown by exp(-pi / Q)
Cycle == Done /\ r.qn >= 2 * r.qd /\ g.fs % r.f = 0 =>
  LET x == TLCEval(RdPlus(r, g.fs, N))  c == g.fs \div r.f  z == ExpNeg((31416 * r.qd) \div r.qn) IN
  \A k \in 1..(N - c) : Near(x[k + c], MulDivS(x[k], z, U), RdTol(RdPlusAmp(r)))
Starts == Done /\ r.qn >= 2 * r.qd => LET x == RdPlus(r, g.fs, N)  A == RdPlusAmp(r) IN
  /\ r.p = 0 => Near(x[1], A, RdTol(A)) /\ \A k \in 1..N : Abs(x[k]) <= A
  /\ Near(RdPlusAmp([r EXCEPT !.ne = 2 * r.ne]), 2 * A, 8) /\ Near(RdPlusAmp([r EXCEPT !.dist = 2 * r.dist]), A \div 2, 8)
  /\ r.i = 0 => RdCrossAmp(r) = 0
  /\ r.i \in {0, 8} => Near(A, 2 * RdPlusAmp([r EXCEPT !.i = 4]), 8)
  /\ r.i = 4 => Near(RdCrossAmp(r), 2 * A, 8)
\* higher quality: smaller start, slower decay
Quality == Done /\ r.qn >= 2 * r.qd => /\ RdAmp([r EXCEPT !.qn = 4 * r.qn]) < RdAmp(r) + 2
                                       /\ \A k \in 1..N : Decay([r EXCEPT !.qn = 4 * r.qn], g.fs, k) >= Decay(r, g.fs, k)
ExpLaw == step = 0 => \A x, y \in {0, 100, 3000, 7000, 12000, 25000} : Near(ExpNeg(x + y), (ExpNeg(x) * ExpNeg(y)) \div U, 8)
Emit == Done => CSVWrite("%1$s", <<ToJson([g |-> g, r |-> r])>>, IOEnv.STIM)
=============================================================================
