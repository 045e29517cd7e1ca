---------------------------- MODULE MultiRes_MC -------------------------------
(* Index map on every pair of grids up to N; combination of two or three     *)
(* parts along time on every small grid and content.                         *)
EXTENDS MultiRes, IOUtils
VARIABLES parts
Thorough == IOEnv.TIER = "thorough"
N == 12
V == IF Thorough THEN 0..2 ELSE 0..1
MaxT == 3
Part(t) == {[f |-> 1, t |-> t, v |-> v] : v \in [1..t -> V]}
Part2(t) == {[f |-> 2, t |-> t, v |-> v] : v \in [1..(2 * t) -> V]}
All == UNION {Part(t) : t \in 1..MaxT} \cup UNION {Part2(t) : t \in 1..2}
Init == parts = <<>>
Next == Len(parts) < 2 /\ \E p \in All : parts' = Append(parts, p)
Spec == Init /\ [][Next]_parts
IndexMap == parts = <<>> => \A m \in 1..N : \A s \in 1..m :
  /\ {Scaled(i, s, m) : i \in 0..(m - 1)} = 0..(s - 1)
  /\ \A i \in 0..(m - 2) : Scaled(i, s, m) <= Scaled(i + 1, s, m)
  /\ (s = m => \A i \in 0..(m - 1) : Scaled(i, s, m) = i)
Single == Len(parts) = 1 => Combined(parts) = parts[1].v
Self == Len(parts) = 1 => Combined(<<parts[1], parts[1]>>) = parts[1].v
Swap == Len(parts) = 2 => Combined(parts) = Combined(<<parts[2], parts[1]>>)
\* every value of every part survives somewhere or is beaten there
Kept == Len(parts) = 2 => LET c == Combined(parts) IN
  /\ \A j \in 1..2 : \A n \in 1..Len(parts[j].v) : \E m \in 1..Len(c) : c[m] >= parts[j].v[n]
  /\ MaxOf({c[n] : n \in 1..Len(c)}) = MaxOf({parts[j].v[n] : <<j, n>> \in {q \in (1..2) \X (1..4) : q[2] <= Len(parts[q[1]].v)}} \cup {0})
Opts == parts = <<>> => \A a, b \in 1..3 :
  LET o == [n_fft |-> [i \in 1..a |-> i], hop |-> [i \in 1..b |-> 10 + i]] IN
  Consistent(o) = (a = b \/ a = 1 \/ b = 1)
=============================================================================
