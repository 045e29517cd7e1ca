------------------------------- MODULE Sampler --------------------------------
(* A bank of waveforms: several polarizations and optional parameters, all   *)
(* of the same number of rows, drawn together. bank: record of sequences of  *)
(* rows under each name.                                                     *)
EXTENDS Trig
Rows(bank) == Len(bank[CHOOSE k \in DOMAIN bank : TRUE])
Consistent(bank) == \A j, k \in DOMAIN bank : Len(bank[j]) = Len(bank[k])
\* a request: -1 for everything, otherwise how many
Refused(bank, n) == n > Rows(bank)
Size(bank, n) == IF n = -1 THEN Rows(bank) ELSE n
Drawn(bank, idx) == [k \in DOMAIN bank |-> [i \in 1..Len(idx) |-> bank[k][idx[i]]]]
\* indices admitted for a request
Admits(bank, n, idx) == IF n = -1 THEN idx = [i \in 1..Rows(bank) |-> i]
                        ELSE Len(idx) = n /\ \A i \in 1..n : idx[i] \in 1..Rows(bank)
\* six standard deviations
Plausible(count, n, d, t) == Abs(count * d - t * n) <= 6 * Isqrt(t * n * (d - n)) + d
=============================================================================
