-------------------------- MODULE MultiRes_Trace ------------------------------
(* e.opts: option lists as given; e.n: samples; e.parts: every spectrogram   *)
(* with options from the lists, of each series alone (v[series]).            *)
EXTENDS MultiRes, TraceKit
VARIABLES l, bad
Run(e) ==
  IF ~Consistent(e.opts) \/ e.flawed THEN IF e.built THEN "bad options accepted" ELSE ""
  ELSE IF ~e.built THEN "valid options refused"
  ELSE IF e.given # e.n THEN IF e.err = "" THEN "input of the wrong length accepted" ELSE ""
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE LET part(j, s) == LET p == CHOOSE q \in {e.parts[i] : i \in 1..Len(e.parts)} :
                                   \A k \in DOMAIN e.opts : q[k] = Option(e.opts, k, j)
                         IN  [f |-> FreqBins(p.n_fft), t |-> TimeBins(e.n, p.n_fft, p.hop_length), v |-> p.v[s]]
           ps(s) == TLCEval([j \in 1..Count(e.opts) |-> part(j, s)])
           F == Rows(ps(1))  T == Cols(ps(1))
       IN
       IF \E j \in 1..Count(e.opts) : Len(ps(1)[j].v) # ps(1)[j].f * ps(1)[j].t THEN "grid of a part"
       ELSE IF e.y_sh # e.lead \o <<F, T>> THEN "grid is not the finest of the parts"
       ELSE IF \E s \in 1..ProdSeq(e.lead) : LET c == Combined(ps(s)) IN
              \E i \in 1..(F * T) : ~Near(e.y_d[(s - 1) * F * T + i], c[i], 2 + Abs(c[i]) \div 2000)
            THEN "not the maximum over the parts"
       ELSE ""
Judge(e) == CASE e.op = "run" -> Run(e) [] OTHER -> "unexpected exception"
Init == l = 1 /\ bad = <<>>
Consume == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Report(bad, l, Judge(Trace[l]))
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED bad
Spec == Init /\ [][Consume \/ Finish]_<<l, bad>>
=============================================================================
