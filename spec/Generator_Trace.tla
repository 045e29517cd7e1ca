---------------------------- MODULE Generator_Trace ----------------------------
(* Events of one case: begin (a generator), then for every batch request     *)
(* (what the approximant was asked for), answer, and for an approximant of   *)
(* known content packet and tone (one polarization of one row), for a real   *)
(* one wave (envelope of one row) and same (two answers that agree).         *)
EXTENDS Generator, TraceKit
VARIABLES l, bad, cfg, ring
vars == <<l, bad, cfg, ring>>
First(ss) == FoldLeft(LAMBDA a, s : IF a # "" THEN a ELSE s, "", ss)
\* frequencies in ten-thousandths of a Hertz, masses in thousandths
FIsco(M) == MulDiv(23935000, 1000, M)
FMin(c) == RoundDiv(c.fn * E4, c.fd)
FLow(c, m) == FoldLeft(LAMBDA a, x : MinI(a, FIsco(x[1] + x[2])), FMin(c), m)
FBin(c, W, k) == MulDiv(k * c.sr, E4, W)
\* Newtonian time from frequency f to coalescence, samples
CubeRoot(x) == CHOOSE r \in 0..1000 : r * r * r <= x /\ x < (r + 1) * (r + 1) * (r + 1)
Newton(sr, m, f) ==
  LET M == m[1] + m[2]
      p == MulDiv(m[1], 1000, M)  eta == (4 * p * (1000 - p)) \div 1000
      r == CubeRoot(MulDiv((M \div 100) * (f \div 100), 15474, 1000))
      v4 == ((r * r) \div 1000) * ((r * r) \div 1000)
      v8 == MaxI(1, ((v4 \div 10) * (v4 \div 10)) \div 10)
  IN  (((((sr * M) \div 1000) * 385) \div eta) * 1000) \div v8
Cfg(e) == [sr |-> e.sr, fn |-> e.fn, fd |-> e.fd, S |-> (e.sr * e.dn) \div e.dd, rp |-> RoundDiv(e.sr * e.pn, e.pd),
           ns |-> TaperStart(e.sr, e.fn, e.fd), fref |-> e.fref]
RingOf(e) == NextPow2(2 * (e.nf - 1))
Request(e, c) ==
  LET W == RingOf(e)  k0 == W \div 2 + 1 - e.nf  lo == FLow(c, e.m) IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.times # 1 THEN "approximant is asked once"
  ELSE IF ~(\A i \in 1..Len(e.ks) : Near(e.fs[i], FBin(c, W, k0 + e.ks[i]), 6 + FBin(c, W, k0 + e.ks[i]) \div 500000)) THEN "frequencies of the request"
  ELSE IF k0 < 0 \/ FBin(c, W, k0) > lo THEN "frequencies start above the lower bound"
  ELSE IF \E i \in 1..Len(e.m) : W < c.rp + RoundDiv(3 * c.sr * 5000, lo) * 2 \/ W < c.rp + (Newton(c.sr, e.m[i], MinI(FMin(c), FIsco(e.m[i][1] + e.m[i][2]))) * 9) \div 10
       THEN "window too short for the signal"
  ELSE IF e.fref # c.fref THEN "reference frequency"
  ELSE IF e.seen # e.given THEN "parameters of the request" ELSE ""
AnswerOk(e, c) ==
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.c_sh # <<e.b, c.S>> \/ e.p_sh # <<e.b, c.S>> THEN "shape of the waveforms"
  ELSE IF ~e.finite THEN "waveform is not finite" ELSE ""
PacketOk(e, c, W) ==
  IF \A i \in 1..Len(e.idx) :
       LET x == PacketAt(c, W, e.A, e.tau, e.ph, e.M, e.idx[i]) IN
       Near(e.d[i], x, 15 + Abs(e.A) * 60)
  THEN "" ELSE "place, size or phase of the signal"
ToneOk(e, c) ==
  IF 2 * e.f <= FMin(c) THEN IF Abs(e.amp) <= 20 THEN "" ELSE "signal below the lower frequency bound"
  ELSE IF 2 * e.f >= 3 * FMin(c) THEN IF Near(e.amp, 1000, 35) THEN "" ELSE "signal within the band changed"
  ELSE IF e.amp >= -100 /\ e.amp <= 1110 THEN "" ELSE "signal near the lower frequency bound"
\* e.blocks: largest envelope in stretches of 20 M from coalescence on
Unit(c, M) == MulDiv(c.sr * (M \div 100), 493, 100000)       \* M, ten-thousandths of a sample
WaveOk(e, c) ==
  IF ~Near(e.peak, Placed(c.S, c.rp), 3 + (60 * Unit(c, e.M)) \div E4) THEN "place of the merger"
  ELSE IF e.step # MaxI(1, (20 * Unit(c, e.M)) \div E4) THEN "step of the record"
  ELSE IF \E i \in 7..Len(e.blocks) : e.blocks[i] > 300 THEN "signal after the merger"
  ELSE IF e.before < 1000 THEN "no inspiral before the merger" ELSE ""
Tol(kind) == CASE kind \in {"again", "order"} -> 1 [] kind = "far" -> 3 [] kind = "alone" -> 300
SameOk(e) == IF ~NearSeq(e.x, e.y, Tol(e.kind)) THEN "relation " \o e.kind ELSE ""
Judge(e) ==
  CASE e.op = "begin" -> IF e.err # "" THEN "constructor raised" ELSE IF e.size # (e.sr * e.dn) \div e.dd THEN "size" ELSE ""
    [] e.op = "request" -> Request(e, cfg)
    [] e.op = "answer" -> AnswerOk(e, cfg)
    [] e.op = "packet" -> PacketOk(e, cfg, ring)
    [] e.op = "tone" -> ToneOk(e, cfg)
    [] e.op = "wave" -> WaveOk(e, cfg)
    [] e.op = "same" -> SameOk(e)
    [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>> /\ cfg = [sr |-> 0] /\ ring = 0
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
  /\ cfg' = (IF Trace[l].op = "begin" THEN Cfg(Trace[l]) ELSE cfg)
  /\ ring' = (IF Trace[l].op = "request" /\ Trace[l].err = "" THEN RingOf(Trace[l]) ELSE ring)
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cfg, ring>>
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
