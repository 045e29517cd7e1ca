------------------------------ MODULE Decimator -------------------------------
(* Decimation of a timeseries by a schedule. Times are integers in units of  *)
(* 1 / U seconds; an entry is <<start, end, target rate>>; R is the rate of  *)
(* the input and R / U is such that every time falls on a sample.            *)
EXTENDS Num, TLC
MinOfSet(A) == CHOOSE x \in A : \A y \in A : x <= y
MaxOfSet(A) == CHOOSE x \in A : \A y \in A : x >= y
\* the schedule spans from its earliest start to its latest end: split entries
\* may come in any order and contain one another
From(S) == MinOfSet({S[i][1] : i \in 1..Len(S)})
Until(S) == MaxOfSet({S[i][2] : i \in 1..Len(S)})
\* sample (from the start of the schedule) of time t
At(S, t, R, U) == ((t - From(S)) * R) \div U
\* samples kept by entry i
Kept(S, i, R, U) ==
  LET a == At(S, S[i][1], R, U)  b == At(S, S[i][2], R, U)  step == R \div S[i][3]
  IN  TLCEval([k \in 1..CeilDiv(b - a, step) |-> a + (k - 1) * step])
Segments(S, R, U) == TLCEval([i \in 1..Len(S) |-> Kept(S, i, R, U)])
RECURSIVE Concat(_, _)
Concat(segs, i) == IF i > Len(segs) THEN <<>> ELSE segs[i] \o Concat(segs, i + 1)
Length(S, R, U) == At(S, Until(S), R, U)
\* reasons for refusal
Reversed(S) == \E i \in 1..Len(S) : S[i][2] <= S[i][1]
Indivisible(S, R) == \E i \in 1..Len(S) : R % S[i][3] # 0
Overlapping(S) == \E i \in 1..(Len(S) - 1) : S[i + 1][1] < S[i][2]
Valid(S, R, split) == ~Reversed(S) /\ ~Indivisible(S, R) /\ (split \/ ~Overlapping(S))
=============================================================================
