---------------------------- MODULE Spline_Trace ------------------------------
(* axes[1]: width (x, last dimension), axes[2]: height (y). A call carries   *)
(* series of 1000 times the output, one per row (1D) or plane (2D).          *)
EXTENDS Spline, TraceKit
VARIABLES l, bad, cur
vars == <<l, bad, cur>>
e == Trace[l]
A == Trace[cur].axes
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
Degenerate(axes) == \E a \in 1..Len(axes) : Len(axes[a].grid) < axes[a].k + 2
New == Is("new") /\ cur' = l /\ Verdict(
  IF Degenerate(e.axes) THEN IF e.err = "" THEN "too few points accepted" ELSE ""
  ELSE IF e.err # "" THEN "constructor raised" ELSE "")

Xs == InForce(A[1], e.given[1])
Ys == IF Len(A) = 2 THEN InForce(A[2], e.given[2]) ELSE <<>>
Size(s) == IF Len(A) = 2 THEN Len(Xs) * Len(Ys) ELSE Len(Xs)
\* expected shape: leading axes of length one are added up to four
Pad(sh) == [i \in 1..(4 - Len(sh)) |-> 1] \o sh
WantShape == LET s == Pad(e.z_sh) IN
  IF Len(A) = 2 THEN <<s[1], s[2], Len(Ys), Len(Xs)>> ELSE <<s[1], s[2], s[3], Len(Xs)>>
BadData == \/ Len(e.z_sh) > 4 \/ Len(e.z_sh) < Len(A)
           \/ e.z_sh[Len(e.z_sh)] # Len(A[1].grid)
           \/ (Len(A) = 2 /\ e.z_sh[Len(e.z_sh) - 1] # Len(A[2].grid))
NSeries == LET s == Pad(e.z_sh) IN IF Len(A) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]
\* output of series s at column i, row j
Out(s, i, j) == e.y_d[((s - 1) * (IF Len(A) = 2 THEN Len(Ys) ELSE 1) + j - 1) * Len(Xs) + i]
Rows == IF Len(A) = 2 THEN 1..Len(Ys) ELSE {1}
RowIn(j) == Len(A) = 1 \/ Inside(A[2], Ys[j])
\* data of series s at grid point (i, j)
Dat(s, i, j) == e.z_d[((s - 1) * (IF Len(A) = 2 THEN Len(A[2].grid) ELSE 1) + j - 1) * Len(A[1].grid) + i]
Ky == IF Len(A) = 2 THEN A[2].k ELSE 0
\* 4^(kx + ky) times a polynomial in both coordinates
Poly2N(c, p, q) == SumI(LAMBDA i : SumI(LAMBDA j : c[i + 1][j + 1] * Pow(p, i) * Pow(q, j) * Pow(4, A[1].k - i) * Pow(4, Ky - j), 0, Len(c[1]) - 1), 0, Len(c) - 1)
Want(c, p, q) == LET v == Poly2N(c, p, q)  d == Pow(4, A[1].k + Ky) IN
  IF v >= 0 THEN (v \div d) * 1000 + ((v % d) * 1000) \div d ELSE -(((-v) \div d) * 1000 + (((-v) % d) * 1000) \div d)
Tol(s) == 5 + e.peak[s] \div 500
CallOk ==
  IF BadData THEN IF e.err = "" THEN "mismatched data accepted" ELSE ""
  ELSE IF ~Answerable(A, e.given) THEN IF e.err = "" THEN "answered without output coordinates" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # WantShape THEN "shape of the output"
  ELSE LET Pts == {<<i, j>> \in (1..Len(Xs)) \X Rows : Inside(A[1], Xs[i]) /\ RowIn(j)} IN
  IF \E s \in 1..NSeries : e.poly[s] # <<>> /\ \E p \in Pts :
       ~Near(Out(s, p[1], p[2]), Want(e.poly[s], Xs[p[1]], IF Len(A) = 2 THEN Ys[p[2]] ELSE 0), Tol(s)) THEN "polynomial not reproduced"
  ELSE IF \E s \in 1..NSeries : e.poly[s] = <<>> /\ \E p \in Pts :
       LET i == Knot(A[1], Xs[p[1]])  j == IF Len(A) = 2 THEN Knot(A[2], Ys[p[2]]) ELSE 1 IN
       i # 0 /\ j # 0 /\ ~Near(Out(s, p[1], p[2]), 1000 * Dat(s, i, j), Tol(s)) THEN "grid point not reproduced"
  ELSE IF Len(A) = 1 /\ A[1].k = 1 /\ \E s \in 1..NSeries : e.poly[s] = <<>> /\ \E p \in Pts :
       ~Near(Out(s, p[1], 1), Linear(A[1].grid, [i \in 1..Len(A[1].grid) |-> Dat(s, i, 1)], Xs[p[1]]), Tol(s)) THEN "not piecewise linear"
  ELSE IF \E s \in 1..NSeries : \E i \in 1..Size(s) : ~Near(e.y_d[(s - 1) * Size(s) + i], e.alone[s][i], Tol(s)) THEN "series differs from what it gets alone"
  ELSE IF e.lin # <<>> /\ \E i \in 1..Size(1) :
       LET y(s) == e.y_d[(e.lin[s] - 1) * Size(1) + i] IN ~Near(y(3), y(1) + 2 * y(2), 3 * (Tol(e.lin[1]) + Tol(e.lin[2]))) THEN "not linear in the data"
  ELSE ""
Call == Is("call") /\ UNCHANGED cur /\ Verdict(CallOk)
Other == l <= Len(Trace) /\ e.op \notin {"new", "call"} /\ UNCHANGED cur /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur>>
Spec == Init /\ [][New \/ Call \/ Other \/ Finish]_vars
=============================================================================
