---------------------------- MODULE Decimator_MC ------------------------------
(* Every schedule of up to three entries over a short series: what is kept   *)
(* lies in the entry, is evenly spaced, starts on its start; joined output   *)
(* is strictly increasing; a schedule's pieces can be shifted in time.       *)
EXTENDS Decimator, Json, CSV, IOUtils
VARIABLES S
Thorough == IOEnv.TIER = "thorough"
T == IF Thorough THEN 6 ELSE 5
R == 4
U == 4
Rates == {1, 2, 3, 4}
Entries == (0..T) \X (0..T) \X Rates
MaxLen == IF Thorough THEN 3 ELSE 2
Init == S = <<>>
Third == {0, 3, 6} \X {3, 6} \X {1, 4}
Next == Len(S) < MaxLen /\ \E e \in (IF Len(S) = 2 THEN Third ELSE Entries) : S' = Append(S, e)
Spec == Init /\ [][Next]_S
Ok == S # <<>> /\ Valid(S, R, TRUE)
Inside == Ok => \A i \in 1..Len(S) : LET k == Kept(S, i, R, U) IN
  /\ k # <<>> /\ k[1] = At(S, S[i][1], R, U)
  /\ \A j \in 1..Len(k) : k[j] >= 0 /\ k[j] < At(S, S[i][2], R, U)
  /\ \A j \in 1..(Len(k) - 1) : k[j + 1] - k[j] = R \div S[i][3]
  /\ k[Len(k)] + R \div S[i][3] >= At(S, S[i][2], R, U)
Increasing == (S # <<>> /\ Valid(S, R, FALSE)) =>
  LET c == Concat(Segments(S, R, U), 1) IN
  \A j \in 1..(Len(c) - 1) : c[j] < c[j + 1]
FullRate == (Ok /\ ~Overlapping(S) /\ \A i \in 1..Len(S) : S[i][3] = R /\ (i > 1 => S[i][1] = S[i - 1][2])) =>
  Concat(Segments(S, R, U), 1) = [j \in 1..Length(S, R, U) |-> j - 1]
\* the order of the entries decides the order of the pieces, nothing else
Reorders == Ok => LET n == Len(S)  Q == [i \in 1..n |-> S[n + 1 - i]]  a == Segments(S, R, U)  b == Segments(Q, R, U) IN
  Length(S, R, U) = Length(Q, R, U) /\ \A i \in 1..n : a[i] = b[n + 1 - i]
\* a joined schedule is in order, so that it spans from first to last entry
InOrder == (S # <<>> /\ Valid(S, R, FALSE)) => From(S) = S[1][1] /\ Until(S) = S[Len(S)][2]
ShiftBlind == Ok => Segments(S, R, U) = Segments([i \in 1..Len(S) |-> <<S[i][1] + 3, S[i][2] + 3, S[i][3]>>], R, U)
Emit == (S # <<>> /\ (Len(S) = 3 => S[1][3] = 4)) => CSVWrite("%1$s", <<ToJson([s |-> S])>>, IOEnv.STIM)
=============================================================================
