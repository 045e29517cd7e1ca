-------------------------- MODULE Approximant_Trace ---------------------------
(* One approximant object. "learn" records the kernel of a source on all     *)
(* bins of the run (alone, unit distance, phase zero, face on if its spins   *)
(* are aligned); every "call" after it is a function of the kernels. Values  *)
(* are scaled bin by bin so that the larger kernel has modulus 20000.        *)
EXTENDS Approximant, TraceKit
VARIABLES kern, l, bad
vars == <<kern, l, bad>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
Z(d, F, n, m) == LET o == 2 * ((n - 1) * F + m - 1) IN <<d[o + 1], d[o + 2]>>
Begin == Is("begin") /\ kern' = <<>> /\ Verdict(IF e.err # "" THEN "constructor raised" ELSE "")
Learn == /\ Is("learn")
         /\ kern' = Append(kern, [al |-> e.al, p |-> e.p, c |-> e.c])
         /\ Verdict(
             IF e.err # "" THEN "call raised"
             ELSE IF e.p_sh # <<1, e.F>> \/ e.c_sh # <<1, e.F>> THEN "shape of the waveforms"
             ELSE IF ~e.complex THEN "waveforms are not complex"
             ELSE IF ~e.finite THEN "waveforms are not finite"
             ELSE IF e.al /\ \E m \in 1..e.F : LET a == Z(e.p, e.F, 1, m) IN ~NearZ(Z(e.c, e.F, 1, m), <<a[2], -a[1]>>, e.tol)
                  THEN "a face-on source is not circularly polarized"
             ELSE "")
Call == Is("call") /\ UNCHANGED kern /\ Verdict(
  LET B == Len(e.rows)  M == Len(e.bins) IN
  IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.p_sh # <<B, M>> \/ e.c_sh # <<B, M>> THEN "shape of the waveforms"
  ELSE IF ~e.finite THEN "waveforms are not finite"
  ELSE IF \E n \in 1..B : LET r == e.rows[n]  k == kern[r.s]  tol == (e.tol * MaxI(r.kn, r.kd)) \div r.kn + 4 IN \E m \in 1..M :
         LET kp == Z(k.p, e.F, 1, e.bins[m])  kc == Z(k.c, e.F, 1, e.bins[m]) IN
         \/ ~NearZ(Z(e.p, M, n, m), PlusOf(kp, r, k.al), tol)
         \/ ~NearZ(Z(e.c, M, n, m), CrossOf(kp, kc, r, k.al), tol)
       THEN "a row is not its own source at its own distance, phase and inclination"
  ELSE "")
\* the kernels a and b of two descriptions of one system
Twin == Is("twin") /\ UNCHANGED kern /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF e.p_sh # e.q_sh THEN "shape of the waveforms"
  ELSE IF ~NearSeq(e.p, e.q, e.tol) THEN e.what ELSE "")
Mismatch == Is("mismatch") /\ UNCHANGED kern /\ Verdict(IF e.err = "ValueError" THEN "" ELSE "parameters of different lengths not refused")
\* amplitudes in 10^-29 / Hz, in promille of the leading order
Leading == Is("leading") /\ UNCHANGED kern /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF \E n \in 1..Len(e.rows) : LET r == e.rows[n]  w == Newtonian(r.k, r.j, r.d) IN ~Near(e.amp[n], w, (w \div 1000) * e.promille + w \div 2000 + 3)
       THEN "not the leading order amplitude" ELSE "")
\* a time of coalescence turns every bin in proportion to its frequency, both
\* polarizations alike (angles in 62832ths of a turn at f, 2 f, 3 f, ...)
Delay == Is("delay") /\ UNCHANGED kern /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF \E n \in 1..Len(e.turn) : \E p \in 1..2 : \E m \in 1..Len(e.turn[n][p]) :
         LET d == (e.turn[n][p][m] - m * e.turn[n][1][1]) % 62832 IN (d > 2 * m + 2 /\ d < 62830 - 2 * m) \/ ~Near(e.ratio[n][p][m], 10000, 2)
       THEN "a time of coalescence does not just delay the waveform" ELSE "")
Smooth == Is("smooth") /\ UNCHANGED kern /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF ~e.finite THEN "waveforms are not finite"
  ELSE IF ~SmoothSeq(e.amp, e.atol) THEN "amplitude jumps"
  ELSE IF \E n \in 2..(Len(e.amp) - 1) : e.amp[n] > 100 /\ ~SmoothTurn(e.turn, 62832, e.ttol, n) THEN "phase jumps"
  ELSE "")
Agree == Is("agree") /\ UNCHANGED kern /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF Len(e.a) # Len(e.b) \/ \E n \in 1..Len(e.a) : ~Near(e.a[n], e.b[n], e.b[n] \div 33 + 3) THEN "aligned limit of the precessing model"
  ELSE "")
Crash == Is("crash") /\ UNCHANGED kern /\ Verdict("unexpected exception")
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<kern, bad>>
Init == kern = <<>> /\ l = 1 /\ bad = <<>>
Spec == Init /\ [][Begin \/ Learn \/ Call \/ Twin \/ Mismatch \/ Leading \/ Delay \/ Smooth \/ Agree \/ Crash \/ Finish]_vars
=============================================================================
