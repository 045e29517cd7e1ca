------------------------------- MODULE Norm_MC --------------------------------
(* All small inputs and groupings: groups partition the channels in order,   *)
(* have mean zero and variance one, do not see each other and ignore offsets *)
(* and positive factors of their own.                                        *)
EXTENDS Norm, Json, CSV, IOUtils
VARIABLES C, g, x, hist
vars == <<C, g, x, hist>>
Thorough == IOEnv.TIER = "thorough"
MaxC == IF Thorough THEN 8 ELSE 6
Ones(n) == [i \in 1..n |-> 1]
Zeros(n) == [i \in 1..n |-> 0]
Init == C \in 1..MaxC /\ g \in 0..(MaxC + 1) /\ x = <<>> /\ hist = <<>>
Data == x = <<>> /\ hist = <<>> /\ C <= (IF Thorough THEN 4 ELSE 3) /\ Valid(C, g) /\ x' \in [1..C -> [1..2 -> {-1, 0, 3}]] /\ UNCHANGED <<C, g, hist>>
Call == x = <<>> /\ Len(hist) < 2 /\ \E k \in {"rand", "flat", "offset", "rank", "batch"} : hist' = Append(hist, k) /\ UNCHANGED <<C, g, x>>
Next == Data \/ Call
Spec == Init /\ [][Next]_vars
G == Groups(C, g)
Partition == Valid(C, g) => /\ UNION {Members(k, C, g) : k \in 0..(G - 1)} = 1..C
  /\ \A k \in 0..(G - 1) : Cardinality(Members(k, C, g)) = C \div G
  /\ \A c \in 1..(C - 1) : GroupOf(c, C, g) <= GroupOf(c + 1, C, g)
Refusals == Valid(C, g) <=> (g = 0 \/ \E w \in 1..C : w * g = C)
Y(v) == Normed(v, g, 0, Ones(C), Zeros(C))
Moments == x # <<>> => LET y == Y(x) IN \A k \in 0..(G - 1) : LET S == Members(k, C, g)  K == 2 * (C \div G) IN
  /\ Abs(Sum1(y, S)) <= K
  /\ LET v == Sum2(x, S) * K - Sum1(x, S) * Sum1(x, S) IN Near(Sum2(y, S), IF v = 0 THEN 0 ELSE K * 1000000, 4000 * K)
Apart == x # <<>> => LET y == Y(x)
                         z == Y([c \in 1..C |-> IF GroupOf(c, C, g) = 0 THEN [t \in 1..2 |-> 3 * x[c][t] - t] ELSE x[c]]) IN
  \A c \in 1..C : GroupOf(c, C, g) # 0 => y[c] = z[c]
Invariant == x # <<>> => LET y == Y(x)  z == Y([c \in 1..C |-> [t \in 1..2 |-> 5 * x[c][t] + 7 * GroupOf(c, C, g) - 2]]) IN
  \A c \in 1..C : NearSeq(y[c], z[c], 3)
Emit == Len(hist) = 2 => CSVWrite("%1$s", <<ToJson([C |-> C, g |-> g, h |-> hist])>>, IOEnv.STIM)
=============================================================================
