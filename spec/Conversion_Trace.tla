--------------------------- MODULE Conversion_Trace ---------------------------
(* Events: masses (a batch of component masses), spins (a batch of           *)
(* conversions, with each row's conversion on its own), aligned (a batch of  *)
(* vanishing tilts), faceon (systems seen along the orbital momentum).       *)
EXTENDS Conversion, TraceKit
VARIABLES l, bad
vars == <<l, bad>>
\* chirp masses and results in units of 1/U of a solar mass
MassOk(e) ==
  LET B == Len(e.m) IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF ~e.finite THEN "result is not a number"
  ELSE IF e.m1_sh # <<B>> \/ e.m2_sh # <<B>> \/ \E b \in 1..B : ~IsChirp(e.mc[b], e.m[b][1], e.m[b][2]) THEN "shape of the masses"
  ELSE IF \E b \in 1..B : e.m1_d[b] < e.m2_d[b] - e.tol THEN "lighter mass first"
  ELSE IF \E b \in 1..B : ~Near(e.m1_d[b], Heavier(e.m[b][1], e.m[b][2]) * U, e.tol) \/ ~Near(e.m2_d[b], Lighter(e.m[b][1], e.m[b][2]) * U, e.tol)
       THEN "not the original masses"
  ELSE IF ~NearSeq(e.one1_d, e.m1_d, e.tol) \/ ~NearSeq(e.one2_d, e.m2_d, e.tol) THEN "depends on the other rows" ELSE ""
\* y: per row <<inclination, its cosine, spin 1, spin 2>> in units of 1/U
Row(y, b) == [inc |-> y[b][1], ci |-> y[b][2], s1 |-> SubSeq(y[b], 3, 5), s2 |-> SubSeq(y[b], 6, 8)]
SpinRow(r, o) ==
  IF ~Preserves(r, o.s1, o.s2, 12) THEN "not a rotation of the spins about the orbital momentum"
  ELSE IF o.inc < -1 \/ o.inc > 31417 THEN "inclination out of range"
  ELSE IF Aligned(r) /\ ~(\A i \in 1..2 : Near(o.s1[i], 0, 6) /\ Near(o.s2[i], 0, 6)) THEN "aligned spins do not stay aligned"
  ELSE IF Aligned(r) /\ ~Near(o.inc, (62832 * r.tj) \div r.d, 12) THEN "inclination of an aligned system"
  ELSE IF ~Aligned(r) /\ Determined(r) /\
       (LET c == Convert(r) IN ~(Near(o.ci, c.ci, 60) /\ \A i \in 1..3 : Near(o.s1[i], c.s1[i], 120) /\ Near(o.s2[i], c.s2[i], 120)))
       THEN "spins or inclination in the wrong frame"
  ELSE ""
First(ss) == FoldLeft(LAMBDA a, s : IF a # "" THEN a ELSE s, "", ss)
SpinOk(e) ==
  LET B == Len(e.rows) IN
  IF e.rows[1].f <= 0 THEN IF e.err = "ValueError" THEN "" ELSE "reference frequency not refused"
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.shapes # [i \in 1..7 |-> <<B>>] THEN "shape of the spins"
  ELSE IF ~e.finite THEN "result is not a number"
  ELSE LET bd == First([b \in 1..B |-> SpinRow(e.rows[b], Row(e.y, b))]) IN
  IF bd # "" THEN bd
  ELSE IF \E b \in 1..B : \E k \in {2, 5, 8} : ~Near(e.y[b][k], e.one[b][k], 3) THEN "depends on the other rows"
  ELSE IF \E b \in 1..B : Determined(e.rows[b]) /\ \E k \in 2..8 : ~Near(e.y[b][k], e.one[b][k], 3) THEN "depends on the other rows" ELSE ""
\* many rows with vanishing tilts: y as above, tj in units of 1/U
AlignedOk(e) ==
  LET B == Len(e.tj) IN
  IF e.err # "" THEN "call raised"
  ELSE IF ~e.finite THEN "result is not a number"
  ELSE IF \E b \in 1..B : ~Near(e.inc[b], e.tj[b], 12) THEN "inclination of an aligned system"
  ELSE IF \E b \in 1..B : ~Near(e.z1[b], e.a1[b], 2) \/ ~Near(e.z2[b], e.a2[b], 2) \/ ~Near(e.xy[b], 0, 2) THEN "aligned spins do not stay aligned"
  ELSE ""
FaceOk(e) ==
  LET B == Len(e.inc) IN
  IF e.err # "" THEN "call raised"
  ELSE IF ~e.finite THEN "result is not a number"
  ELSE IF \E b \in 1..B : ~Near(e.inc[b], e.tj[b], 25) THEN "inclination of a system seen along its orbital momentum" ELSE ""
Judge(e) == CASE e.op = "masses" -> MassOk(e)
              [] e.op = "spins" -> SpinOk(e)
              [] e.op = "aligned" -> AlignedOk(e)
              [] e.op = "faceon" -> FaceOk(e)
              [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
