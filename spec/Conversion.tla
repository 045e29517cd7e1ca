------------------------------ MODULE Conversion ------------------------------
(* Binary source parameters. Masses are whole solar masses; angles are whole *)
(* numbers of d-ths of a turn; results are in units of 1 / U.                *)
EXTENDS Trig, Sequences
U == 10000
Ux(a, b) == (a * b) \div U
Cos(n, d) == CosN(n, d) \div 3
Sin(n, d) == SinN(n, d) \div 3

\* ---- chirp mass and mass ratio
\* the heavier mass first
Heavier(m, n) == MaxI(m, n)
Lighter(m, n) == MinI(m, n)
\* (chirp mass / heavier mass) ^ 5 from the mass ratio, and from a chirp mass
Fifth(x) == (Ux(Ux(x, x), x) * U) \div (U + x)
RatioU(m, n) == RoundDiv(Lighter(m, n) * U, Heavier(m, n))
FifthOf(mc, m) == LET k == RoundDiv(mc, m)  k2 == Ux(k, k) IN Ux(Ux(k2, k2), k)
IsChirp(mc, m, n) == Near(FifthOf(mc, Heavier(m, n)), Fifth(RatioU(m, n)), 12)

\* ---- spins
\* orbital speed: the cube root of pi f M
Cbrt(n) == LET RECURSIVE b(_, _)
               b(lo, hi) == IF hi - lo <= 1 THEN lo
                            ELSE LET m == (lo + hi) \div 2 IN IF m * m * m <= n THEN b(m, hi) ELSE b(lo, m)
           IN  b(0, 1290)
Speed(M, f) == LET x == 15474 * M * f  r == Cbrt(x) IN 10 * r + ((x - r * r * r) * 10) \div (3 * r * r)
Eta(m, n) == RoundDiv(m * n * U, (m + n) * (m + n))
\* orbital angular momentum over the square of the total mass
Orbital(m, n, f) ==
  LET v == Speed(m + n, f)  e == Eta(m, n) IN Ux((e * U) \div v, U + Ux(Ux(v, v), 15000 + e \div 6))
\* unit vector at polar angle t and azimuth p
Unit(t, p, d) == <<Ux(Sin(t, d), Cos(p, d)), Ux(Sin(t, d), Sin(p, d)), Cos(t, d)>>
Scale(k, w) == [i \in 1..3 |-> Ux(k, w[i])]
Plus(v, w) == [i \in 1..3 |-> v[i] + w[i]]
\* r: theta_jn tj, phi_jl pj, tilts t1 t2, phi_12 pp, phi_ref pr (in d-ths of a
\* turn), magnitudes a1 a2 (in units of 1/U), masses m1 m2 and frequency f
Dir1(r) == Unit(r.t1, r.pr, r.d)
Dir2(r) == Unit(r.t2, r.pp + r.pr, r.d)
Total(r) == LET M == r.m1 + r.m2 IN
  Plus(Plus(Scale((Ux(RoundDiv(r.m1 * r.m1 * 1000, M * M) * 10, r.a1)), Dir1(r)), Scale(Ux(RoundDiv(r.m2 * r.m2 * 1000, M * M) * 10, r.a2), Dir2(r))),
       <<0, 0, Orbital(r.m1, r.m2, r.f)>>)
Perp(J) == Isqrt(J[1] * J[1] + J[2] * J[2])
Norm3(J) == Isqrt(J[1] * J[1] + J[2] * J[2] + J[3] * J[3])
\* line of sight, with the orbital angular momentum along z
Sight(r) == LET J == Total(r)  p == Perp(J)  n == Norm3(J)
                st == (p * U) \div n  ct == (J[3] * U) \div n
                jx == IF p = 0 THEN U ELSE (J[1] * U) \div p
                jy == IF p = 0 THEN 0 ELSE (J[2] * U) \div p
                cj == Cos(r.tj, r.d)  sj == Sin(r.tj, r.d)
                sp == Sin(r.pj, r.d)  cp == Cos(r.pj, r.d)
            IN  Plus(Scale(cj, <<Ux(st, jx), Ux(st, jy), ct>>),
                     Scale(sj, Plus(Scale(sp, <<-Ux(ct, jx), -Ux(ct, jy), st>>), Scale(cp, <<jy, -jx, 0>>))))
\* components of s with the line of sight in the half plane of z and +y, then
\* turned back by the reference phase
InFrame(s, N, r) ==
  LET p == Perp(N)
      nx == IF p = 0 THEN U ELSE (N[1] * U) \div p
      ny == IF p = 0 THEN 0 ELSE (N[2] * U) \div p
      x == Ux(s[1], ny) - Ux(s[2], nx)
      y == Ux(s[1], nx) + Ux(s[2], ny)
      c == Cos(r.pr, r.d)  sn == Sin(r.pr, r.d)
  IN  <<Ux(x, c) + Ux(y, sn), Ux(y, c) - Ux(x, sn), s[3]>>
\* cosine of the inclination and both spins
Convert(r) == LET N == Sight(r) IN
  [ci |-> N[3], s1 |-> InFrame(Scale(r.a1, Dir1(r)), N, r), s2 |-> InFrame(Scale(r.a2, Dir2(r)), N, r)]
\* the frame is well determined: neither J nor N along the orbital momentum
Determined(r) == Perp(Total(r)) >= 1000 /\ Perp(Sight(r)) >= 1500
Aligned(r) == (r.t1 = 0 \/ r.a1 = 0) /\ (r.t2 = 0 \/ r.a2 = 0)
\* what every conversion preserves
Preserves(r, s1, s2, tol) ==
  LET i1 == Ux(r.a1, Sin(r.t1, r.d))  i2 == Ux(r.a2, Sin(r.t2, r.d)) IN
  /\ Near(s1[3], Ux(r.a1, Cos(r.t1, r.d)), tol) /\ Near(s2[3], Ux(r.a2, Cos(r.t2, r.d)), tol)
  /\ Near(Ux(s1[1], s1[1]) + Ux(s1[2], s1[2]) + Ux(s1[3], s1[3]), Ux(r.a1, r.a1), 2 * tol)
  /\ Near(Ux(s2[1], s2[1]) + Ux(s2[2], s2[2]) + Ux(s2[3], s2[3]), Ux(r.a2, r.a2), 2 * tol)
  /\ Near(Ux(s1[1], s2[1]) + Ux(s1[2], s2[2]), Ux(Ux(i1, i2), Cos(r.pp, r.d)), 2 * tol)
  /\ Near(Ux(s1[1], s2[2]) - Ux(s1[2], s2[1]), Ux(Ux(i1, i2), Sin(r.pp, r.d)), 2 * tol)
=============================================================================
