------------------------------ MODULE Norm_Trace ------------------------------
(* "new": a layer for C channels, made directly or by a getter; "call": one  *)
(* batch x channels x times input (two-dimensional inputs are flattened over *)
(* time), weights and biases, and 1000 times the output. The layer was given *)
(* the data plus a constant offset, which leaves no trace but the rounding of *)
(* single precision numbers of its size (far).                                *)
EXTENDS Norm, TraceKit
VARIABLES l, bad, cur
vars == <<l, bad, cur>>
e == Trace[l]
M == Trace[cur]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
InForce(m) == IF m.via = "direct" THEN m.g ELSE GetterGroups(m.C, m.g)
New == Is("new") /\ cur' = l /\ Verdict(
  IF ~Valid(e.C, InForce(e)) THEN IF e.err = "ValueError" THEN "" ELSE "indivisible channels accepted"
  ELSE IF e.err # "" THEN "constructor raised" ELSE "")
B == e.x_sh[1]
T == e.x_sh[3]
Row(d, b, c) == SubSeq(d, ((b - 1) * M.C + c - 1) * T + 1, ((b - 1) * M.C + c) * T)
Call == Is("call") /\ UNCHANGED cur /\ Verdict(
  IF e.rank # 3 /\ M.via # "get2" THEN IF e.err = "ValueError" THEN "" ELSE "input of another rank accepted"
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.x_sh THEN "shape of the output"
  ELSE IF \E b \in 1..B : LET z == Normed([c \in 1..M.C |-> Row(e.x_d, b, c)], InForce(M), M.eps, e.w, e.b) IN
       \E c \in 1..M.C : ~NearSeq(Row(e.y_d, b, c), z[c], 3 + Abs(e.w[c]) * (3 + e.far \div 10)) THEN "not the normalised input"
  ELSE "")
Other == l <= Len(Trace) /\ e.op \notin {"new", "call"} /\ UNCHANGED cur /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur>>
Spec == Init /\ [][New \/ Call \/ Other \/ Finish]_vars
=============================================================================
