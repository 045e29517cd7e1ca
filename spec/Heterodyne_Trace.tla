------------------------- MODULE Heterodyne_Trace -----------------------------
EXTENDS Heterodyne, TraceKit
VARIABLES l, bad
\* het: x of shape <<B, C, n>>; re, im (100 times, rate removed) of shape
\* <<B, C, M, bins>>; t (100 times) of shape <<B, C, M, n>>; pr, pi: phases
\* (10000 times) of each mass found by heterodyning an impulse with a bank of
\* that mass alone
Ph(e, m, k) == LET f == Bins(e.x_sh[3]) IN <<At2(e.pr, f, m, k), At2(e.pi, f, m, k)>>
Z(e, b, c, m, k) == LET s == e.f_sh IN <<At4(e.re, s[2], s[3], s[4], b, c, m, k), At4(e.im, s[2], s[3], s[4], b, c, m, k)>>
WantShapes(e) == LET n == e.x_sh[3] IN
  /\ (e.has_f => e.f_sh = <<e.x_sh[1], e.x_sh[2], e.M, Bins(n)>>)
  /\ (e.has_t => e.t_sh = <<e.x_sh[1], e.x_sh[2], e.M, n>>)
NearC(z, w, tol) == Near(z[1], w[1], tol) /\ Near(z[2], w[2], tol)
Het(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.has_f # (e.return \in {"freq", "both"}) \/ e.has_t # (e.return \in {"time", "both"}) THEN "wrong domains returned"
  ELSE IF ~WantShapes(e) THEN "shape of the output"
  ELSE LET n == e.x_sh[3]  ct == CosTab(n)  st == SinTab(n)
           X(b, c) == TLCEval([t \in 1..n |-> At3(e.x_d, e.x_sh[2], n, b, c, t - 1)])
           Idx == (0..(e.x_sh[1] - 1)) \X (0..(e.x_sh[2] - 1))  M == 0..(e.M - 1)
           K == 1..(Bins(n) - 1)
           Spc == TLCEval([q \in Idx |-> Spectrum(X(q[1], q[2]), ct, st)])
           Want(q, m) == NoDc(TLCEval([k \in 1..Bins(n) |-> Rotate(Spc[q][k], Ph(e, m, k - 1))]))
           tol(q, k) == 6 + (Abs(Spc[q][k][1]) + Abs(Spc[q][k][2])) \div 1000
       IN
       IF \E m \in M, k \in K : ~Near(Norm2(Ph(e, m, k)) \div 1000, 100000, 300) THEN "phase factor is not of unit modulus"
       ELSE IF \E m \in M : Ph(e, m, 0) # <<0, 0>> THEN "zero frequency is kept"
       ELSE IF e.has_f /\ \E q \in Idx, m \in M : ~NearC(Z(e, q[1], q[2], m, 0), <<0, 0>>, 0) THEN "zero frequency is kept"
       ELSE IF e.has_f /\ \E q \in Idx, m \in M : LET w == Want(q, m) IN
              \E k \in K : ~NearC(Z(e, q[1], q[2], m, k), w[k + 1], tol(q, k + 1))
            THEN "spectrum not rotated by the phase of its mass"
       ELSE IF e.has_t /\ \E q \in Idx, m \in M : LET s == SeriesN(Want(q, m), n, ct, st) IN
              \E t \in 1..n : ~Near(n * At4(e.t_d, e.x_sh[2], e.M, n, q[1], q[2], m, t - 1), s[t], n * (8 + Abs(s[t]) \div (500 * n)) + 2 * n * n)
            THEN "series is not the inverse transform of the spectrum"
       ELSE ""
\* prescribed phase of bins for which M f is the cube of e.c[i]
Phase(e) ==
  IF e.err # "" THEN "call raised"
  ELSE IF \E i \in 1..Len(e.c) : LET n == PhaseTurns2000(e.c[i]) IN
    ~(Near(e.pr[i] * 3, CosN(n, 2000), e.tol) /\ Near(e.pi[i] * 3, SinN(n, 2000), e.tol)) THEN "phase is not the leading-order inspiral phase"
  ELSE ""
Mode(e) == IF (e.mode \in {"time", "freq", "both"}) = (e.err = "") THEN "" ELSE "return types"
Judge(e) == CASE e.op = "het" -> Het(e) [] e.op = "phase" -> Phase(e) [] e.op = "mode" -> Mode(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
