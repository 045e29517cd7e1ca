-------------------------------- MODULE Iir_MC --------------------------------
(* Small integer filters on all short series: forward and backward filtering *)
(* is linear, has zero phase (is its own adjoint), never gains energy of the *)
(* wrong sign and leaves nothing behind. Histories of calls are emitted.     *)
EXTENDS Iir, Json, CSV, IOUtils
VARIABLES b, a, hist, d
vars == <<b, a, hist, d>>
Thorough == IOEnv.TIER = "thorough"
T == IF Thorough THEN 4 ELSE 3
Xs == [1..T -> -1..1]
Calls == {"rows", "impulse", "linear", "big"}
F(x) == Filt(b, a, x, MulI)
\* matrix of the filter: columns are the answers to unit impulses
Unit(i) == [j \in 1..T |-> IF j = i THEN 1 ELSE 0]
Dot(x, y) == SumI(LAMBDA i : x[i] * y[i], 1, T)
Init == b \in UNION {[1..n -> -2..2] : n \in 1..(IF Thorough THEN 3 ELSE 2)} /\ a \in {<<1>> \o r : r \in UNION {[1..n -> -2..2] : n \in 0..2}}
        /\ hist = <<>> /\ d = <<>>
Design == d = <<>> /\ b = <<1>> /\ a = <<1>> /\ UNCHANGED <<b, a, hist>>
          /\ \E ft \in {"butter", "cheby1", "cheby2", "ellip", "bessel"}, N \in 1..4, kind \in {"low", "high", "band", "stop"} : d' = [ft |-> ft, N |-> N, kind |-> kind]
Call == d # <<>> /\ Len(hist) < 3 /\ UNCHANGED <<b, a, d>> /\ \E c \in Calls : hist' = Append(hist, c)
Next == Design \/ Call
Spec == Init /\ [][Next]_vars
Adjoint == d = <<>> => \A i, j \in 1..T : Dot(Unit(i), F(Unit(j))) = Dot(F(Unit(i)), Unit(j))
Linear == d = <<>> => LET M == TLCEval([i \in 1..T |-> F(Unit(i))]) IN \A x \in Xs : F(x) = [n \in 1..T |-> SumI(LAMBDA i : x[i] * M[i][n], 1, T)]
Energy == d = <<>> => \A x \in Xs : Dot(x, F(x)) = Dot(Pass(b, a, x, MulI), Pass(b, a, x, MulI))
\* the power responses of the designs: half power / ripple at the edges, all
\* or nothing at the ends, every one between zero and one
Ends == d # <<>> /\ hist = <<>> /\ d.ft \in {"butter", "cheby1", "cheby2"} =>
  LET band == IF d.kind \in {"low", "high"} THEN <<1, 4>> ELSE <<1, 4, 3, 4>>
      eps == IF d.ft = "cheby2" THEN <<1, 9>> ELSE <<1, 4>>
      P(k) == Power(d.ft, d.N, d.kind, band, eps, k, 16)
      edge == IF d.ft = "butter" THEN 500 ELSE IF d.ft = "cheby1" THEN 800 ELSE 100
      out == IF d.ft = "cheby2" /\ d.N % 2 = 0 THEN 100 ELSE 0
      full == IF d.ft = "cheby1" /\ d.N % 2 = 0 THEN 800 ELSE 1000
  IN /\ \A k \in 0..16 : P(k) \in 0..1000
     /\ Near(P(4), edge, 10) /\ (d.kind \in {"band", "stop"} => Near(P(12), edge, 10))
     /\ Near(P(0), IF d.kind \in {"low", "stop"} THEN full ELSE out, 10)
     /\ Near(P(16), IF d.kind \in {"high", "stop"} THEN full ELSE out, 10)
     /\ (d.kind = "band" => Near(P(8), full, 10)) /\ (d.kind = "stop" => Near(P(8), out, 10))
Emit == Len(hist) = 3 => CSVWrite("%1$s", <<ToJson([d |-> d, h |-> hist])>>, IOEnv.STIM)
=============================================================================
