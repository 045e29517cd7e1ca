----------------------------- MODULE Generator_MC -----------------------------
(* Batches of sources, margins, places of coalescence and lengths.           *)
EXTENDS Generator, Json, CSV, IOUtils
VARIABLES src, e, rp, S, step
vars == <<src, e, rp, S, step>>
Thorough == IOEnv.TIER = "thorough"
Sources == [a : IF Thorough THEN 0..7 ELSE {0, 1, 3, 6}, b : 0..2]
Init == step = 0 /\ src \in {<<s>> : s \in Sources} /\ e \in 1..2 /\ rp = 1 /\ S = 1
More == step = 0 /\ step' = 1 /\ UNCHANGED <<e, rp, S>>
  /\ (src' = src \/ \E s \in Sources : src' = Append(src, s))
Window == step = 1 /\ step' = 2 /\ UNCHANGED <<src, e>>
  /\ rp' \in {r \in 1..(IF Thorough THEN 12 ELSE 8) : \A i \in 1..Len(src) : src[i].b < r}
  /\ S' \in (IF Thorough THEN 1..20 ELSE {1, 2, 4, 5, 8, 11, 16, 20})
Next == More \/ Window
Spec == Init /\ [][Next]_vars
Done == step = 2
W == Room(src, e, rp)
\* nothing but the instant that belongs there is ever found in a sample
NoAlias == Done => \A i \in 1..Len(src) : \A n \in 0..(S - 1) :
  Answer(src[i], W, S, rp, n) \subseteq {n - Placed(S, rp)}
\* every instant of the source within the window is found
Complete == Done => \A i \in 1..Len(src) : \A t \in (-src[i].a)..src[i].b :
  LET n == Placed(S, rp) + t IN n \in 0..(S - 1) => Answer(src[i], W, S, rp, n) = {t}
\* silence from the end of the remainder on
Quiet == Done => \A i \in 1..Len(src) : \A n \in 0..(S - 1) :
  n > Placed(S, rp) + src[i].b => Answer(src[i], W, S, rp, n) = {}
\* the other sources only change the ring, not the answer
Alone == Done => \A i \in 1..Len(src) : LET V == Room(<<src[i]>>, e, rp) IN
  /\ W >= V /\ \A n \in 0..(S - 1) : Answer(src[i], W, S, rp, n) = Answer(src[i], V, S, rp, n)
\* a ring that leaves no room for rp goes wrong (for some settings)
ASSUME \E a \in 0..6, r \in 1..8 : LET s == [a |-> a, b |-> 0]  V == NarrowRoom(<<s>>, 1, r) IN
  \E n \in 0..19 : ~(Answer(s, V, 20, r, n) \subseteq {n - Placed(20, r)})
\* the packet: even, one at its centre, no mean
ASSUME \A n \in 1..60 : Env(n) = Env(-n) /\ Env(n) < E4 /\ (n > 12 => Abs(Env(n)) < 100)
ASSUME Near(SumI(LAMBDA n : Packet(n, 0), -60, 60), 0, 60) /\ Near(SumI(LAMBDA n : Packet(n, 1), -60, 60), 0, 60)
\* energy by Parseval: sum of squares = sr * int bell^2 / 2 * 2 in units of the centre
ASSUME Near(SumI(LAMBDA n : (Packet(n, 0) \div 100) * (Packet(n, 0) \div 100), -60, 60), 30000, 700)
ASSUME \A n \in -40..40 : Packet(n, 2) = -Packet(n, 0) /\ Packet(n, 1) = -Packet(-n, 1)
ASSUME \A m \in {4, 9, 50} : Hann(0, m) = 0 /\ Hann(m, m) = E4 /\ \A k \in 0..(m - 1) : Hann(k, m) < Hann(k + 1, m) /\ Near(Hann(k, m) + Hann(m - k, m), E4, 3)
Class == [n |-> Len(src), a |-> [i \in 1..Len(src) |-> src[i].a], e |-> e, rp |-> rp, S |-> S, W |-> W]
Emit == Done /\ (Thorough \/ \A i \in 1..Len(src) : src[i].b = 0) => CSVWrite("%1$s", <<ToJson(Class)>>, IOEnv.STIM)
=============================================================================
