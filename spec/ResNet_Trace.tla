----------------------------- MODULE ResNet_Trace -----------------------------
(* "new": a network built from cfg (its errors); "pass": an impulse went     *)
(* through it with every weight positive and normalisation layers that only  *)
(* record what they saw; "rows": one batch in evaluation mode, its elements  *)
(* alone, the batch repeated and in another order (perm); "zero": every block*)
(* of a zero-initialised network: samples of its shortcut and its output.    *)
EXTENDS ResNet, TraceKit
VARIABLES l, bad, cur
vars == <<l, bad, cur>>
e == Trace[l]
M == Trace[cur]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
New == Is("new") /\ cur' = l /\ Verdict(
  LET want == Errors(e.cfg) IN
  IF want # {} THEN IF e.err \in want THEN "" ELSE "unsupported combination not refused"
  ELSE IF e.err # "" THEN "constructor raised" ELSE "")
(* an impulse lost along one axis (a strided kernel of one) is lost altogether *)
Dead(x) == \E a \in DOMAIN x.axes : x.axes[a].s = {}
Key(x) == [c |-> x.c, axes |-> [a \in 1..Len(x.axes) |-> [n |-> x.axes[a].n, s |-> IF Dead(x) THEN <<>> ELSE SetToSortSeq(x.axes[a].s, <)]]]
Count(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Count(p, p[k]) = Count(q, p[k])
Shapes(q) == [k \in DOMAIN q |-> [c |-> q[k].c, n |-> [a \in 1..Len(q[k].axes) |-> q[k].axes[a].n]]]
Pass == Is("pass") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "forward raised"
  ELSE IF e.y_sh # <<e.batch, M.classes>> THEN "shape of the output"
  ELSE LET w == Whole(M.cfg)
           want == [k \in 1..Len(w.norms) |-> Key(w.norms[k])] IN
       IF ~SameBag(Shapes(want), Shapes(e.norms)) THEN "widths and lengths of the stages"
       ELSE IF ~SameBag(want, e.norms) THEN "reach of the convolutions" ELSE "")
Rows == Is("rows") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "forward raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # <<e.batch, M.classes>> \/ e.alone_sh # e.y_sh \/ e.again_sh # e.y_sh \/ e.perm_sh # e.y_sh
       THEN "shape of the output"
  ELSE IF e.again_d # e.y_d THEN "not repeatable in evaluation mode"
  ELSE IF \E k \in DOMAIN e.y_d : ~(e.y_d[k] - e.alone_d[k] \in -e.tol..e.tol) THEN "row depends on the rest of the batch"
  ELSE IF \E b \in 1..e.batch, c \in 1..M.classes :
          ~(e.perm_d[(b - 1) * M.classes + c] - e.y_d[e.order[b] * M.classes + c] \in -e.tol..e.tol)
       THEN "rows out of order"
  ELSE "")
Relu(x) == IF x > 0 THEN x ELSE 0
Zero == Is("zero") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "zero-initialised network raised"
  ELSE IF Len(e.blocks) # Len(Positions(M.cfg)) THEN "number of blocks"
  ELSE IF \E k \in DOMAIN e.blocks : e.blocks[k].y_sh # e.blocks[k].s_sh THEN "shape of a block's shortcut"
  ELSE IF \E k \in DOMAIN e.blocks : LET b == e.blocks[k] IN \E q \in DOMAIN b.y_d : b.y_d[q] # Relu(b.s_d[q])
       THEN "a zero-initialised block is not its shortcut"
  ELSE "")
Other == l <= Len(Trace) /\ e.op \notin {"new", "pass", "rows", "zero"} /\ UNCHANGED cur /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur>>
Spec == Init /\ [][New \/ Pass \/ Rows \/ Zero \/ Other \/ Finish]_vars
=============================================================================
