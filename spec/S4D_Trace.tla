------------------------------ MODULE S4D_Trace ------------------------------
(* "layer": a layer was given the modes, timesteps and skip weights listed   *)
(* (its mixing made transparent); "kernel": its kernel of two lengths;       *)
(* "out": its output for integer input u (batch x channel x time, whichever  *)
(* way round it takes it); "pair": two inputs of one layer and both outputs; *)
(* "same": two computations of one thing; "model"/"drop": whole models.      *)
EXTENDS S4D, TraceKit
VARIABLES l, bad, cur
vars == <<l, bad, cur>>
e == Trace[l]
M == Trace[cur]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
At(d, sh, i, j, k) == d[((i - 1) * sh[2] + j - 1) * sh[3] + k]
Size(ch) == SumI(LAMBDA n : Abs(ch[n].cr) + Abs(ch[n].ci), 1, Len(ch))
TolK(h) == 10 + (25 * Size(M.modes[h])) \div (2 ^ M.e[h])
Layer == Is("layer") /\ cur' = l /\ Verdict(IF e.err # "" THEN "constructor raised" ELSE "")
KernelOf(h, L) == Kernel(M.modes[h], M.e[h], L)
TheKernel == Is("kernel") /\ UNCHANGED cur /\ Verdict(
  LET H == Len(M.modes) IN
  IF e.err # "" THEN "kernel raised"
  ELSE IF e.k_sh # <<H, e.L>> \/ e.short_sh # <<H, e.S>> THEN "shape of the kernel"
  ELSE IF \E h \in 1..H : \E s \in 1..e.S : ~Near(e.k_d[(h - 1) * e.L + s], e.short_d[(h - 1) * e.S + s], 1)
       THEN "a shorter kernel is no prefix"
  ELSE IF \E h \in 1..H : LET k == TLCEval(KernelOf(h, e.L)) IN
            \E s \in 1..e.L : ~Near(e.k_d[(h - 1) * e.L + s], k[s], TolK(h))
       THEN "kernel is not the impulse response" ELSE "")
Relu(x) == IF x > 0 THEN x ELSE 0
TheOut == Is("out") /\ UNCHANGED cur /\ Verdict(
  LET H == Len(M.modes)
      L == e.u_sh[3] IN
  IF e.err # "" THEN "layer raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # e.u_sh THEN "shape of the output"
  ELSE IF \E h \in 1..H : LET k == TLCEval(KernelOf(h, L)) IN
          \E b \in 1..e.u_sh[1] :
             LET u == TLCEval([s \in 1..L |-> At(e.u_d, e.u_sh, b, h, s)])
                 y == TLCEval(Response(k, M.d[h], u))
                 tol == 1750 + TolK(h) * (SumI(LAMBDA s : Abs(u[s]), 1, L)) IN
             \E s \in 1..L : ~Near(At(e.y_d, e.y_sh, b, h, s), Relu(y[s]), tol)
       THEN "output is not the recurrence stepped" ELSE "")
(* output at a time is a function of the element's input up to that time     *)
Pair == Is("pair") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "layer raised"
  ELSE IF e.y1_sh # e.y2_sh \/ e.y1_sh[1] # e.u1_sh[1] \/ e.y1_sh[3] # e.u1_sh[3] THEN "shape of the output"
  ELSE LET B == e.u1_sh[1]  C == e.u1_sh[2]  L == e.u1_sh[3]
           first(b) == CHOOSE s \in 1..(L + 1) :
              /\ s <= L => \E c \in 1..C : At(e.u1_d, e.u1_sh, b, c, s) # At(e.u2_d, e.u2_sh, b, c, s)
              /\ \A q \in 1..(s - 1), c \in 1..C : At(e.u1_d, e.u1_sh, b, c, q) = At(e.u2_d, e.u2_sh, b, c, q)
       IN IF \E b \in 1..B : \E s \in 1..(first(b) - 1), c \in 1..e.y1_sh[2] :
               ~Near(At(e.y1_d, e.y1_sh, b, c, s), At(e.y2_d, e.y2_sh, b, c, s), e.tol)
          THEN "output depends on later input or on another element" ELSE "")
Same == Is("same") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF e.a_sh # e.b_sh THEN "shape differs: " \o e.what
  ELSE IF ~NearSeq(e.a_d, e.b_d, e.tol) THEN "differs: " \o e.what ELSE "")
Model == Is("model") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "model raised"
  ELSE IF e.mutated THEN "input modified"
  ELSE IF e.y_sh # <<e.B, e.out>> \/ e.alone_sh # e.y_sh \/ e.again_sh # e.y_sh THEN "shape of the output"
  ELSE IF e.again_d # e.y_d THEN "not repeatable with dropout off"
  ELSE IF ~NearSeq(e.alone_d, e.y_d, e.tol) THEN "an element's output depends on the batch" ELSE "")
Drop == Is("drop") /\ UNCHANGED cur /\ Verdict(
  IF ValidDropout(e.kind, e.num) THEN IF e.err = "" THEN "" ELSE "valid dropout refused"
  ELSE IF e.err = "ValueError" THEN "" ELSE "invalid dropout accepted")
Other == l <= Len(Trace) /\ e.op \notin {"layer", "kernel", "out", "pair", "same", "model", "drop"} /\ UNCHANGED cur /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur>>
Spec == Init /\ [][Layer \/ TheKernel \/ TheOut \/ Pair \/ Same \/ Model \/ Drop \/ Other \/ Finish]_vars
=============================================================================
