----------------------------- MODULE Antenna_Trace ----------------------------
(* Events: responses (antenna pattern of a batch), geometry (tensors and     *)
(* vertices of named detectors), arms (one detector's description).          *)
EXTENDS Antenna, TraceKit
VARIABLES l, bad
vars == <<l, bad>>
\* result scaled by US: batch x modes x detectors
RespOk(e) ==
  LET B == Len(e.th)  M == Len(e.modes)  I == Len(e.tensors) IN
  IF ~({e.modes[i] : i \in 1..M} \subseteq Modes) THEN IF e.err = "ValueError" THEN "" ELSE "unknown mode not refused"
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # <<B, M, I>> THEN "shape of the responses"
  ELSE IF \E b \in 1..B : LET R == Responses(e.modes, e.th[b], e.ps[b], e.ph[b], e.tensors, 1) IN
       \E p \in 1..M : \E i \in 1..I : ~Near(At3(e.y_d, M, I, b - 1, p - 1, i - 1), R[p][i], 6 * Size1(e.tensors[i]) + 6)
       THEN "not the contraction of detector and polarization tensors"
  ELSE ""
\* tensors scaled by 10^4, vertices in metres
GeoOk(e) ==
  LET I == Len(e.names) IN
  IF ~({e.names[i] : i \in 1..I} \subseteq Known) THEN IF e.err = "ValueError" THEN "" ELSE "unknown detector not refused"
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.t_sh # <<I, 3, 3>> \/ e.v_sh # <<I, 3>> THEN "shape of the geometry"
  ELSE IF \E i \in 1..I : \E k \in 1..9 : ~Near(e.t_d[(i - 1) * 9 + k], DetTensor(Geo(e.names[i]).x, Geo(e.names[i]).y)[k], 2) THEN "detector tensor"
  ELSE IF \E i \in 1..I : \E k \in 1..3 : ~Near(e.v_d[(i - 1) * 3 + k], Geo(e.names[i]).v[k], 2) THEN "vertex"
  ELSE ""
ArmsOk(e) ==
  IF e.name \notin Known THEN IF e.err = "ValueError" THEN "" ELSE "unknown detector not refused"
  ELSE IF e.err # "" THEN "call raised"
  ELSE LET g == Geo(e.name) IN
  IF ~NearSeq(e.x_d, g.x, 2) \/ ~NearSeq(e.y_d, g.y, 2) \/ ~NearSeq(e.v_d, g.v, 2) THEN "description of the detector" ELSE ""
Judge(e) == CASE e.op = "responses" -> RespOk(e)
              [] e.op = "geometry" -> GeoOk(e)
              [] e.op = "arms" -> ArmsOk(e)
              [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
