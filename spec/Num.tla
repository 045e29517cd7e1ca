-------------------------------- MODULE Num ---------------------------------
(* Integer arithmetic helpers shared by all specifications (TLC integers are *)
(* 32 bit: everything below is kept far away from 2^31).                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Abs(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
Near(a, b, tol) == Abs(a - b) <= tol

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* sum of f(i) over lo..hi
SumI(f(_), lo, hi) == FoldLeft(LAMBDA a, i : a + f(i), 0, [k \in 1..(hi - lo + 1) |-> lo + k - 1])
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

\* All elements of two equally long sequences within tol
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)

\* Row-major addressing of a tensor flattened to a sequence (0-based indices)
At2(d, n1, i, j) == d[i * n1 + j + 1]
At3(d, n1, n2, i, j, k) == d[(i * n1 + j) * n2 + k + 1]
At4(d, n1, n2, n3, i, j, k, m) == d[((i * n1 + j) * n2 + k) * n3 + m + 1]

IsPerm(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in 1..Len(s)} = S
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
=============================================================================
