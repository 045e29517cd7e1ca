------------------------------- MODULE S4D_MC -------------------------------
(* The layer as a machine fed one sample at a time, over the Gaussian        *)
(* integers, against the convolution the code performs.                      *)
EXTENDS S4D, Json, CSV, IOUtils, FiniteSets
VARIABLES lams, ws, zs, u, ys, hist
vars == <<lams, ws, zs, u, ys, hist>>
Thorough == IOEnv.TIER = "thorough"
G == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<1, -1>>}
W == {<<1, 0>>, <<0, 1>>, <<2, -1>>}
Len1 == IF Thorough THEN 5 ELSE 4
Kinds == {"impulse", "random", "long", "one", "layout", "batch", "causal", "prefix"}
Init == /\ lams \in G \X G /\ ws \in W \X W /\ zs = <<<<0, 0>>, <<0, 0>>>> /\ u = <<>> /\ ys = <<>> /\ hist = <<>>
Feed == /\ hist = <<>> /\ Len(u) < Len1
        /\ \E x \in -1..1 : LET z == [n \in 1..2 |-> Step(lams[n], zs[n], x)] IN
             zs' = z /\ u' = Append(u, x) /\ ys' = Append(ys, Out(ws, z))
        /\ UNCHANGED <<lams, ws, hist>>
\* histories of calls of one layer (for the real code), per shape
Begin == /\ u = <<>> /\ hist = <<>> /\ lams[1] = <<0, 0>> /\ lams[2] = <<0, 0>> /\ ws[1] = <<1, 0>> /\ ws[2] = <<1, 0>>
         /\ \E H \in {1, 2, 3}, N \in {2, 4, 6}, tr \in BOOLEAN : hist' = <<[H |-> H, N |-> N, tr |-> tr]>>
         /\ UNCHANGED <<lams, ws, zs, u, ys>>
Call == /\ hist # <<>> /\ Len(hist) < (IF Thorough THEN 5 ELSE 4) /\ \E k \in Kinds : hist' = Append(hist, [kind |-> k])
        /\ UNCHANGED <<lams, ws, zs, u, ys>>
Next == Feed \/ Begin \/ Call
Spec == Init /\ [][Next]_vars
Ker == Impulse(lams, ws, Len1 + 1)
Convolved(x) == [l \in 1..Len(x) |-> SumI(LAMBDA j : Ker[j] * x[l + 1 - j], 1, l)]
StepIsConvolution == ys = Convolved(u)
PrefixOfLonger == \A L \in 0..Len1 : Impulse(lams, ws, L) = SubSeq(Ker, 1, L)
\* twice the length (or one less) is enough padding for the FFT
Padded == u # <<>> => /\ Circular(SubSeq(Ker, 1, Len(u)), u, 2 * Len(u)) = ys
                      /\ Circular(SubSeq(Ker, 1, Len(u)), u, 2 * Len(u) - 1) = ys
Causal == [][Len(u') > Len(u) => SubSeq(ys', 1, Len(ys)) = ys]_vars
(* the fixed point kernel: a step multiplies by lambda (halving, turning)    *)
Real(m) == m.p = 0
FixedPoint == (u = <<>> /\ hist = <<>> /\ lams = <<<<0, 0>>, <<0, 0>>>> /\ ws = <<<<1, 0>>, <<1, 0>>>>) => \A k \in 1..4, p \in {-1, 0, 1, 2}, q \in {3, 4, 8} :
   LET m == [k |-> k, p |-> p, q |-> q, cr |-> 1, ci |-> 0]
       K == TLCEval(Kernel(<<m>>, 0, 9)) IN
   /\ (p = 0 => \A l \in 1..7 : Abs(2 * K[l + 2] * (2 ^ (k - 1)) - K[l]) <= 40)
   /\ (q = 4 /\ p = 2 => \A l \in 1..7 : Abs(2 * K[l + 2] * (2 ^ (k - 1)) - K[l]) <= 40)
   /\ (q = 4 /\ p = 1 => \A l \in 1..7 : Abs(2 * K[l + 2] * (2 ^ (k - 1)) + K[l]) <= 40)
   \* the gain solves g * (A dt) = lambda - 1
   /\ LET g == TLCEval(Gain(m)) a == TLCEval(<<-RoundDiv(m.k * 103972, 10), RoundDiv(188496 * m.p, m.q)>>) IN
      LET z == TLCEval(CMul(g, a, Fix)) IN Near(z[1], Lambda(m)[1] - TS, 60) /\ Near(z[2], Lambda(m)[2], 60)
Emit == (hist # <<>> /\ Len(hist) = (IF Thorough THEN 5 ELSE 4)) => CSVWrite("%1$s", <<ToJson([H |-> hist[1].H, N |-> hist[1].N, tr |-> hist[1].tr, h |-> [k \in 1..(Len(hist) - 1) |-> hist[k + 1].kind]])>>, IOEnv.STIM)
=============================================================================
