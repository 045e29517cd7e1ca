---------------------------- MODULE Autoencoder_MC ----------------------------
(* The machine that encodes and decodes, keeping the encodings on a stack:   *)
(* its result is the recursive definition, decoders undo the stack in mirror *)
(* order and always meet the encoding of their own depth. Then all histories *)
(* of calls on one autoencoder.                                              *)
EXTENDS Autoencoder, Json, CSV, IOUtils
VARIABLES blocks, skip, x, pc, val, stack, log, hist
vars == <<blocks, skip, x, pc, val, stack, log, hist>>
Thorough == IOEnv.TIER = "thorough"
MaxN == IF Thorough THEN 4 ELSE 3
Kinds == {"forward", "encode", "states", "decode", "bare", "short", "long"}
Blocks == [s : {1, 2}, a : {1, 2}, cut : {0, 1}]
Start(n) == <<[t \in 1..n |-> t]>>
Skips == {"none", "plain", "add", "concat", "mix"}
Init == /\ blocks = <<>> /\ skip \in Skips /\ pc = "build" /\ hist = <<>> /\ stack = <<>> /\ log = <<>>
        /\ x \in {Start(n) : n \in (IF Thorough THEN {8, 9, 11} ELSE {8, 9})} /\ val = x
Build == pc = "build" /\ Len(blocks) < MaxN /\ \E b \in Blocks :
  blocks' = Append(blocks, b) /\ UNCHANGED <<skip, x, pc, val, stack, log, hist>>
Go == pc = "build" /\ Len(blocks) > 0 /\ pc' = "enc" /\ UNCHANGED <<blocks, skip, x, val, stack, log, hist>>
N == Len(blocks)
\* encode one block, pushing the encoding
Push == pc = "enc" /\ Len(stack) < N /\ LET i == Len(stack) + 1  v == TestEnc(blocks[i], i, val) IN
  /\ val' = v /\ stack' = Append(stack, v) /\ log' = Append(log, <<"enc", i>>)
  /\ pc' = (IF i = N THEN "dec" ELSE "enc") /\ UNCHANGED <<blocks, skip, x, hist>>
\* the top of the stack is the encoding of the block that decodes next
Pop == pc = "dec" /\ LET i == Len(stack)
                         v == IF i = N \/ skip = "none" THEN val ELSE Join(skip, 1, val, stack[i]) IN
  /\ val' = TestDec(blocks[i], i, v) /\ stack' = SubSeq(stack, 1, i - 1) /\ log' = Append(log, <<"dec", i>>)
  /\ pc' = (IF i = 1 THEN "done" ELSE "dec") /\ UNCHANGED <<blocks, skip, x, hist>>
Call == pc = "build" /\ blocks = <<>> /\ Len(x[1]) = 8 /\ Len(hist) < 3 /\ \E k \in Kinds : hist' = Append(hist, k)
        /\ UNCHANGED <<blocks, skip, x, pc, val, stack, log>>
Next == (hist = <<>> /\ (Build \/ Go \/ Push \/ Pop)) \/ Call
Spec == Init /\ [][Next]_vars
Enc(i, v) == TestEnc(blocks[i], i, v)
Dec(i, v) == TestDec(blocks[i], i, v)
Skip(v, s) == Join(skip, 1, v, s)
Fresh == pc = "build" /\ blocks = <<>> /\ hist = <<>>
Mirror == pc = "done" => /\ Len(log) = 2 * N
  /\ \A i \in 1..N : log[i] = <<"enc", i>> /\ log[2 * N + 1 - i] = <<"dec", i>>
Result == pc = "done" => LET E == Encodings(Enc, N, x) IN
  val = DecodeAll(Dec, Skip, N, E[N], IF skip = "none" THEN <<>> ELSE SubSeq(E, 1, N - 1))
Depth == pc = "dec" /\ skip # "none" /\ Len(stack) < N => Time(Join(skip, 1, val, stack[Len(stack)])) = Time(stack[Len(stack)])
\* transposed convolutions undo the length of convolutions, short of stride - 1
Lengths == Fresh /\ skip = "none" => \A k \in 1..5, s \in 1..3, T \in 5..9 :
  LET y == Conv(<<[t \in 1..T |-> t]>>, 1, k, s, 1)  z == ConvT(y, 1, k, s, 1) IN
  k <= T => T - Time(z) \in 0..s /\ Time(y) \in {T \div s, CeilDiv(T, s), CeilDiv(T, s) - 1}
Fits == Fresh => \A m, n \in 1..6 : LET r == [t \in 1..m |-> t]  f == Fit(r, n) IN
  /\ Len(f) = n /\ (m = n => f = r) /\ (m <= n /\ (n - m) % 2 = 0 => Fit(f, m) = r) /\ (n < m => \A t \in 1..n - 1 : f[t + 1] = f[t] + 1)
Emit == Len(hist) = 3 => CSVWrite("%1$s", <<ToJson([skip |-> skip, h |-> hist])>>, IOEnv.STIM)
=============================================================================
