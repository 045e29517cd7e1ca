---------------------------- MODULE Conversion_MC ----------------------------
(* All combinations of angles on a grid and of a few masses and magnitudes:  *)
(* the conversion is a rotation, keeps the requested geometry, and the       *)
(* masses are determined by chirp mass and mass ratio.                       *)
EXTENDS Conversion, Json, CSV, IOUtils
VARIABLES r, step
vars == <<r, step>>
Thorough == IOEnv.TIER = "thorough"
G == 8
Half == 0..(G \div 2)
Pairs == {<<30, 30>>, <<40, 10>>, <<8, 60>>, <<6, 6>>} \cup (IF Thorough THEN {<<90, 12>>, <<5, 40>>} ELSE {})
Spins == {<<9000, 9000>>, <<0, 8000>>, <<7000, 0>>, <<0, 0>>, <<3000, 9900>>}
Init == step = 0 /\ r \in {[d |-> G, tj |-> 0, pj |-> 0, t1 |-> 0, t2 |-> 0, pp |-> 0, pr |-> 0, a1 |-> s[1], a2 |-> s[2], m1 |-> m[1], m2 |-> m[2], f |-> f]
                           : s \in Spins, m \in Pairs, f \in {20, 40}}
Tilts == step = 0 /\ step' = 1 /\ \E t1, t2 \in Half : \E pp \in 0..(G - 1) : r' = [r EXCEPT !.t1 = t1, !.t2 = t2, !.pp = pp]
View == step = 1 /\ step' = 2 /\ \E tj \in Half : \E pj \in {0, 1, 3, 6} : \E pr \in {0, 1, 5} : r' = [r EXCEPT !.tj = tj, !.pj = pj, !.pr = pr]
Next == (step = 0 /\ Tilts) \/ (step = 1 /\ (Thorough \/ (r.t1 + 3 * r.t2 + 5 * r.pp + r.m1 + r.f + r.a1 \div 1000) % 6 = 0) /\ View)
Spec == Init /\ [][Next]_vars
Done == step = 2
Sharp(v) == Perp(v) = 0 \/ Perp(v) >= 1000
\* the conversion is a rotation of both spins about the orbital momentum
Rotation == Done /\ Sharp(Sight(r)) => LET c == Convert(r) IN Preserves(r, c.s1, c.s2, 60)
\* the line of sight is a unit vector at theta_jn from the total momentum
Viewing == Done /\ Sharp(Total(r)) => LET N == Sight(r)  J == Total(r)  n == Norm3(J) IN
  /\ Near(Ux(N[1], N[1]) + Ux(N[2], N[2]) + Ux(N[3], N[3]), U, 150)
  /\ Near(Ux(N[1], (J[1] * U) \div n) + Ux(N[2], (J[2] * U) \div n) + Ux(N[3], (J[3] * U) \div n), Cos(r.tj, r.d), 60)
\* aligned spins stay aligned and are seen at theta_jn
Limit == Done /\ Aligned(r) => LET c == Convert(r) IN
  /\ \A i \in 1..2 : Near(c.s1[i], 0, 5) /\ Near(c.s2[i], 0, 5)
  /\ Near(c.ci, Cos(r.tj, r.d), 40) /\ Near(c.s1[3], r.a1, 10) /\ Near(c.s2[3], r.a2, 10)
\* the reference phase only turns the components
PhaseOnly == Done /\ Determined(r) => LET a == Convert(r)  b == Convert([r EXCEPT !.pr = 0])
     c == Cos(r.pr, r.d)  s == Sin(r.pr, r.d) IN
  /\ Near(a.ci, b.ci, 60)
  /\ Near(a.s1[1], Ux(b.s1[1], c) + Ux(b.s1[2], s), 150) /\ Near(a.s2[2], Ux(b.s2[2], c) - Ux(b.s2[1], s), 150)
\* exchanging equal holes exchanges their spins, up to the origin of azimuth
Label == Done /\ r.pr = 0 /\ r.pp = 0 /\ Determined(r) =>
  LET a == Convert(r)  b == Convert([r EXCEPT !.t1 = r.t2, !.t2 = r.t1, !.a1 = r.a2, !.a2 = r.a1, !.m1 = r.m2, !.m2 = r.m1]) IN
  Near(a.ci, b.ci, 60) /\ \A i \in 1..3 : Near(a.s1[i], b.s2[i], 150) /\ Near(a.s2[i], b.s1[i], 150)
\* slower binaries have more orbital momentum, and the cube root is one
Orbits == step = 0 => /\ Orbital(r.m1, r.m2, 20) > Orbital(r.m1, r.m2, 40)
                      /\ \A f \in {20, 40} : LET v == Speed(r.m1 + r.m2, f)  x == (15474 * (r.m1 + r.m2) * f) \div 100000 IN Near(Ux(Ux(v, v), v), x, 12)
\* equal masses: chirp mass 2^(-1/5) m; order does not matter; only one ratio
Masses == step = 0 /\ r.f = 20 => /\ \A m \in 1..60 : IsChirp(m * 8706, m, m) /\ ~IsChirp(m * 8800, m, m)
                      /\ IsChirp(166511, 40, 10) /\ IsChirp(166511, 10, 40) /\ ~IsChirp(166511, 40, 11)
Emit == Done => CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.STIM)
=============================================================================
