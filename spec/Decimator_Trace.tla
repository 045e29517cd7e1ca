-------------------------- MODULE Decimator_Trace -----------------------------
EXTENDS Decimator, TraceKit
VARIABLES l, bad
\* e.s: entries; e.R; e.U; e.split; e.n: samples given; rows: leading elements
\* of the data; sample j of row r carries the id r * 1000 + j
\* a flattened tensor whose rows are the ids of idx
Holds(sh, d, idx, lead) ==
  /\ sh = lead \o <<Len(idx)>>
  /\ LET n == Len(idx) IN \A r \in 0..(ProdSeq(lead) - 1) : \A k \in 1..n : d[r * n + k] = r * 1000 + idx[k]
Run(e) ==
  IF e.s = <<>> \/ e.cols # 3
  THEN IF e.err = "" THEN "malformed schedule accepted" ELSE ""
  ELSE IF ~Valid(e.s, e.R, e.split) THEN IF e.built THEN "malformed schedule accepted" ELSE ""
  ELSE IF ~e.built THEN "valid schedule refused"
  ELSE IF e.n # Length(e.s, e.R, e.U) THEN IF e.err = "" THEN "data of the wrong length accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE LET g == Segments(e.s, e.R, e.U) IN
  IF e.split
  THEN IF Len(e.out) # Len(g) THEN "number of segments"
       ELSE IF \E i \in 1..Len(g) : ~Holds(e.out[i].y_sh, e.out[i].y_d, g[i], e.lead) THEN "samples of a segment"
       ELSE ""
  ELSE IF Len(e.out) # 1 \/ ~Holds(e.out[1].y_sh, e.out[1].y_d, Concat(g, 1), e.lead) THEN "joined samples"
  ELSE ""
Judge(e) == CASE e.op = "run" -> Run(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
