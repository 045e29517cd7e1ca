-------------------------- MODULE Distribution_Trace --------------------------
(* "sample": n samples of a law: the counts up to the points listed, their   *)
(* extremes in millionths of the range; "density" ("validated": arguments checked): 1000 times the length of  *)
(* the range times the density at the points ("edge": at an end); "outside": what became of the  *)
(* densities asked for outside of the range; "shape": one draw of a shape.   *)
EXTENDS Distribution, TraceKit
VARIABLES l, bad, tab
vars == <<l, bad, tab>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
\* the comoving distance's own law needs no table
Cube(w) == w.fam = "vol" /\ w.type = "comoving_distance" /\ w.rate = 0
CdfOf(w, t, p) == CASE w.fam \in {"cos", "sin"} -> CosCdf(w, p)
                    [] w.fam = "pow" -> PowCdf(w, p)
                    [] w.fam = "root" -> RootCdf(w, p)
                    [] w.fam \in {"logu", "logp"} -> LogCdf(w, p)
                    [] w.fam = "norm" -> NormCdf(p)
                    [] w.fam = "delta" -> IF p >= w.peak THEN 10000 ELSE 0
                    [] w.fam = "vol" -> IF Cube(w) THEN CubeCdf(w.lo, w.hi, p) ELSE VolCdf(w, t, ToUnit(w, w.lo), ToUnit(w, w.hi), ToUnit(w, p))
PdfOf(w, t, p) == CASE w.fam \in {"cos", "sin"} -> CosPdf(w, p)
                    [] w.fam = "pow" -> PowPdf(w, p)
                    [] w.fam = "root" -> RootPdf(w, p)
                    [] w.fam \in {"logu", "logp"} -> LogPdf(w, p)
                    [] w.fam = "norm" -> LogNormPdf(w, p)
                    [] w.fam = "vol" -> IF Cube(w) THEN CubePdf(w.lo, w.hi, p) ELSE VolPdf(w, t, ToUnit(w, w.lo), ToUnit(w, w.hi), ToUnit(w, p))
TableOf(w) == IF w.fam = "vol" /\ ~Cube(w) THEN Tables(w, ToUnit(w, w.hi)) ELSE <<>>
\* six standard deviations of a fraction p of n, and the model's own error
Slack(w, p, n) == Isqrt((36 * p * (10000 - p)) \div n) + (IF w.fam = "delta" THEN 0 ELSE IF w.fam = "vol" THEN 50 ELSE 20)
Bounded(w) == w.fam \notin {"norm", "delta"}
Sample == Is("sample") /\ tab' = TableOf(e.w) /\ Verdict(
  IF e.err # "" THEN "sampling raised"
  ELSE IF e.bad # 0 THEN "samples are not finite"
  ELSE IF Bounded(e.w) /\ (e.min < -2 \/ (e.max > 1000002 /\ ~(e.w.fam = "pow" /\ e.w.rb = 0))) THEN "samples outside of the range"
  ELSE IF \E k \in DOMAIN e.pts : LET p == TLCEval(CdfOf(e.w, tab', e.pts[k]))
                                      f == IF e.counts[k] = e.n THEN 10000 ELSE MulDiv(e.counts[k], 10000, e.n) IN
          ~Near(f, MinI(10000, MaxI(0, p)), Slack(e.w, MinI(10000, MaxI(0, p)), e.n)) THEN "samples do not follow the law"
  ELSE IF ~e.fresh THEN "draws repeat" ELSE "")
Density == (Is("density") \/ Is("validated")) /\ tab' = TableOf(e.w) /\ Verdict(
  IF e.err # "" THEN "density raised"
  ELSE IF e.v_sh # e.x_sh THEN "shape of the density"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF \E k \in DOMAIN e.pts : LET p == TLCEval(PdfOf(e.w, tab', e.pts[k])) IN
          ~Near(e.v_d[k], p, 4 + (IF e.w.fam = "vol" THEN p \div 50 + (IF e.w.lo = 0 THEN 12 ELSE 0) ELSE p \div 100) + (IF e.w.fam = "pow" THEN PowErr(e.w, e.pts[k]) ELSE 0)) THEN "density is not the law's" ELSE "")
(* just inside the two ends: 1/10000 of the range *)
EndOf(w, side) == CASE w.fam \in {"cos", "sin", "vol"} -> IF side = "lo" THEN w.lo ELSE w.hi
                    [] w.fam = "pow" -> IF side = "lo" THEN w.ra ELSE w.rb
                    [] w.fam = "root" -> IF side = "lo" THEN 100 ELSE w.rb
                    [] OTHER -> IF side = "lo" THEN 0 ELSE w.kk
Edge == Is("edge") /\ tab' = TableOf(e.w) /\ Verdict(
  IF e.err # "" THEN "density raised"
  ELSE LET p == TLCEval(IF EndOf(e.w, e.side) = 0 /\ e.w.fam \in {"pow", "vol"} THEN 0 ELSE PdfOf(e.w, tab', EndOf(e.w, e.side))) IN
       IF ~Near(e.v, p, 12 + p \div 20 + (IF e.w.fam = "pow" THEN PowErr(e.w, EndOf(e.w, e.side)) ELSE 0)) THEN "density at the end of the range" ELSE "")
Outside == Is("outside") /\ tab' = <<>> /\ Verdict(
  IF \E k \in DOMAIN e.fate : e.fate[k] \notin {"zero", "refused"} THEN "density outside of the range" ELSE "")
Shape == Is("shape") /\ tab' = <<>> /\ Verdict(
  IF e.err # "" THEN "sampling raised" ELSE IF e.y_sh # e.want THEN "shape of the samples" ELSE "")
Refuse == Is("refuse") /\ tab' = <<>> /\ Verdict(IF e.err = "ValueError" THEN "" ELSE "invalid choice accepted: " \o e.what)
Other == l <= Len(Trace) /\ e.op \notin {"sample", "density", "validated", "outside", "edge", "shape", "refuse"} /\ tab' = <<>> /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ tab = <<>>
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, tab>>
Spec == Init /\ [][Sample \/ Density \/ Edge \/ Outside \/ Shape \/ Refuse \/ Other \/ Finish]_vars
=============================================================================
