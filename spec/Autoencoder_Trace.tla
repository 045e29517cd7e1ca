--------------------------- MODULE Autoencoder_Trace --------------------------
(* "stack": an autoencoder of test blocks, followed by calls; "conv": a      *)
(* convolutional autoencoder with all weights one and no normalisation,      *)
(* followed by the same kinds of call. Tensors are batch x channel x time.   *)
(* Data may be scaled by the event's own scale (integers otherwise).         *)
EXTENDS Autoencoder, TraceKit
VARIABLES l, bad, cur
vars == <<l, bad, cur>>
e == Trace[l]
M == Trace[cur]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
New == (Is("stack") \/ Is("conv")) /\ cur' = l /\ Verdict(IF e.err # "" THEN "constructor raised" ELSE "")
N == IF M.op = "stack" THEN Len(M.blocks) ELSE Len(M.f.ch)
Val(sh, d, b) == TLCEval([c \in 1..sh[2] |-> SubSeq(d, ((b - 1) * sh[2] + c - 1) * sh[3] + 1, ((b - 1) * sh[2] + c) * sh[3])])
Same(v, sh, d, b) == sh[2] = Len(v) /\ sh[3] = Time(v) /\ Val(sh, d, b) = v
Pair == M.op = "stack" /\ M.pair
Enc(i, x) == IF M.op = "stack" THEN TestEnc(M.blocks[i], i, x) ELSE ConvEnc(M.f, i, x)
\* an innermost block of two encodings hands its decoder both; the first plus
\* twice the second stands for them
Dec(i, x) == IF M.op = "stack" THEN TestDec(M.blocks[i], i, x) ELSE ConvDec(M.f, i, x)
Skip(x, s) == Join(M.skip, M.g, x, s)
Twin(v) == TLCEval([c \in 1..Len(v) |-> [t \in 1..Time(v) |-> v[c][t] + 1]])
Inner(v) == IF Pair THEN Plus(v, Plus(Twin(v), Twin(v))) ELSE v
Decoded(v, states) == DecodeAll(Dec, Skip, N, Inner(v), states)
Finished(v, n) == IF n = 0 THEN v ELSE FitAll(v, n)
ForwardOf(x) == LET E == Encodings(Enc, N, x)
                    v == Decoded(E[N], IF M.skip = "none" THEN <<>> ELSE SubSeq(E, 1, N - 1)) IN
                IF M.op = "conv" THEN FitAll(v, Time(x)) ELSE v
Batch(sh) == 1..sh[1]
Basic == IF e.err # "" THEN "call raised" ELSE IF e.mutated THEN "input modified" ELSE ""
Forward == Is("forward") /\ UNCHANGED cur /\ Verdict(IF Basic # "" THEN Basic
  ELSE IF e.y_sh[1] # e.x_sh[1] \/ \E b \in Batch(e.x_sh) : ~Same(ForwardOf(Val(e.x_sh, e.x_d, b)), e.y_sh, e.y_d, b) THEN "full pass" ELSE "")
Encode == Is("encode") /\ UNCHANGED cur /\ Verdict(IF Basic # "" THEN Basic
  ELSE IF \E b \in Batch(e.x_sh) : LET E == Encodings(Enc, N, Val(e.x_sh, e.x_d, b)) IN
       \/ ~Same(E[N], e.y_sh, e.y_d, b) \/ (Pair /\ ~Same(Twin(E[N]), e.y2_sh, e.y2_d, b)) THEN "encoding"
  ELSE IF e.states /\ Len(e.s_sh) # N - 1 THEN "number of intermediate states"
  ELSE IF e.states /\ \E b \in Batch(e.x_sh) : LET E == Encodings(Enc, N, Val(e.x_sh, e.x_d, b)) IN
       \E i \in 1..(N - 1) : ~Same(E[i], e.s_sh[i], e.s_d[i], b) THEN "intermediate states" ELSE "")
\* decode given an encoding and states (their number is e.given, -1 for none)
Decode == Is("decode") /\ UNCHANGED cur /\ Verdict(
  IF e.given = -1 /\ M.skip # "none" THEN IF e.err = "ValueError" THEN "" ELSE "missing states not refused"
  ELSE IF e.given # -1 /\ e.given # N - 1 THEN IF e.err = "ValueError" THEN "" ELSE "wrong number of states not refused"
  ELSE IF Basic # "" THEN Basic
  ELSE IF \E b \in Batch(e.x_sh) :
       LET v == Val(e.x_sh, e.x_d, b)
           st == IF e.given = -1 THEN <<>> ELSE [i \in 1..(N - 1) |-> Val(e.s_sh[i], e.s_d[i], b)]
       IN ~Same(Finished(Decoded(v, st), e.size), e.y_sh, e.y_d, b) THEN "decoding" ELSE "")
\* shapes only: with normalisation, random weights and other activations
Shapes == Is("shapes") /\ UNCHANGED cur /\ Verdict(IF Basic # "" THEN Basic
  ELSE IF e.y_sh # <<e.x_sh[1], e.dec, e.x_sh[3]>> THEN "shape of the output"
  ELSE IF e.lo # e.hi /\ \E i \in 1..Len(e.y_d) : e.y_d[i] < e.lo \/ e.y_d[i] > e.hi THEN "output activation not applied"
  ELSE IF ~NearSeq(e.y_d, e.alone, 3) THEN "row depends on its batch"
  ELSE IF e.y2_d # <<>> /\ \E b \in Batch(e.x_sh) : \E c \in (e.dec \div e.g)..(e.dec - 1) : \E t \in 0..(e.x_sh[3] - 1) :
    LET k == ((b - 1) * e.dec + c) * e.x_sh[3] + t + 1 IN ~Near(e.y_d[k], e.y2_d[k], 3) THEN "groups of channels mix" ELSE "")
Match == Is("match") /\ UNCHANGED cur /\ Verdict(IF Basic # "" THEN Basic
  ELSE IF e.y_sh # <<e.x_sh[1], e.x_sh[2], e.n>> \/ \E b \in Batch(e.x_sh) : ~Same(FitAll(Val(e.x_sh, e.x_d, b), e.n), e.y_sh, e.y_d, b) THEN "size not matched" ELSE "")
Refuse == Is("refuse") /\ UNCHANGED cur /\ Verdict(Refusal(e.err))
Other == l <= Len(Trace) /\ e.op \notin {"stack", "conv", "forward", "encode", "decode", "shapes", "match", "refuse"} /\ UNCHANGED cur /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur>>
Spec == Init /\ [][New \/ Forward \/ Encode \/ Decode \/ Shapes \/ Match \/ Refuse \/ Other \/ Finish]_vars
=============================================================================
