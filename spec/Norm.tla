--------------------------------- MODULE Norm ---------------------------------
(* Group normalisation of integer data: x[c] is the sequence of one channel  *)
(* over all times. eps is in thousandths; results come in thousandths.       *)
EXTENDS Trig
\* number of groups in force: g = 0 stands for one group per channel
Groups(C, g) == IF g = 0 THEN C ELSE g
Valid(C, g) == C % Groups(C, g) = 0
\* what the getters ask for
GetterGroups(C, g) == IF g = 0 THEN C ELSE MinI(C, g)
GroupOf(c, C, g) == (c - 1) \div (C \div Groups(C, g))
Members(k, C, g) == {c \in 1..C : GroupOf(c, C, g) = k}
Sum1(x, S) == SumI(LAMBDA i : IF i \in S THEN SumSeq(x[i]) ELSE 0, 1, Len(x))
Sum2(x, S) == SumI(LAMBDA i : IF i \in S THEN SumI(LAMBDA t : x[i][t] * x[i][t], 1, Len(x[i])) ELSE 0, 1, Len(x))
\* 1000 (x - mean) / sqrt(var + eps) for one group of K numbers with sums s1, s2
Unit(v, K, s1, s2, eps) ==
  LET n == Abs(v * K - s1)  w == K * s2 - s1 * s1 + (eps * K * K) \div 1000
      s == IF w < 2000000 /\ n < 2000 THEN 1000 ELSE 100
      d == SqrtS(w, s)
      q == (n * 1000 * s + d \div 2) \div d
  IN IF n = 0 THEN 0 ELSE IF v * K > s1 THEN q ELSE -q
Normed(x, g, eps, w, b) ==
  LET C == Len(x)  T == Len(x[1])  K == (C \div Groups(C, g)) * T
      S1 == TLCEval([k \in 0..(Groups(C, g) - 1) |-> Sum1(x, Members(k, C, g))])
      S2 == TLCEval([k \in 0..(Groups(C, g) - 1) |-> Sum2(x, Members(k, C, g))])
  IN TLCEval([c \in 1..C |-> LET k == GroupOf(c, C, g) IN [t \in 1..T |-> w[c] * Unit(x[c][t], K, S1[k], S2[k], eps) + 1000 * b[c]]])
=============================================================================
