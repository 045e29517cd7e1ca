------------------------------- MODULE Augment --------------------------------
(* Random inversion and reversal of whole series. A probability is a pair    *)
(* <<n, d>>: n / d.                                                          *)
EXTENDS Trig
Flip(kind, x) == IF kind = "inv" THEN [i \in 1..Len(x) |-> -x[i]] ELSE [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
\* outcomes admitted for one series
Outcomes(kind, p, x) == (IF p[1] < p[2] THEN {x} ELSE {}) \cup (IF p[1] > 0 THEN {Flip(kind, x)} ELSE {})
\* six standard deviations of a count with chance n / d in t trials, times d
Dev(n, d, t) == 6 * Isqrt(t * n * (d - n)) + d
Plausible(count, n, d, t) == Abs(count * d - t * n) <= Dev(n, d, t)
=============================================================================
