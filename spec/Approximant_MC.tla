---------------------------- MODULE Approximant_MC ----------------------------
(* Calls on rows of sources with all settings: composition of turns and      *)
(* distances, orientation limits, and regrouping of rows and bins.           *)
EXTENDS Approximant, Json, CSV, IOUtils
VARIABLES rows, bins, step
vars == <<rows, bins, step>>
Thorough == IOEnv.TIER = "thorough"
S == 1..3
F == 1..4
\* arbitrary kernels
K(s, b) == <<((7919 * s * s + 3571 * b) % 20000) - 9000, ((104729 + 331 * s * b * b) % 18000) - 8000>>
KC(s, b) == <<((3 * s + 1000 * b) % 9000) - 4000, ((77 * s * b) % 9999) - 5000>>
Settings == {[kn |-> k[1], kd |-> k[2], p |-> p, i |-> i] : k \in {<<1, 1>>, <<3, 1>>, <<2, 5>>}, p \in {0, 1, 4, 6}, i \in {0, 3, 4, 8}}
Init == rows = <<>> /\ bins = <<>> /\ step = 0
Row == step < 3 /\ step' = step + 1 /\ UNCHANGED bins
  /\ \E s \in S : \E t \in Settings :
       /\ IF step = 0 THEN TRUE ELSE (t.p + t.i + t.kn + s + rows[1].p + rows[1].i) % (IF Thorough THEN 11 ELSE 29) = 0
       /\ rows' = Append(rows, [s |-> s, kn |-> t.kn, kd |-> t.kd, p |-> t.p, i |-> t.i])
Bin == step \in 1..3 /\ step' = 4 /\ UNCHANGED rows
  /\ \E T \in (SUBSET F) \ {{}} : (step < 3 \/ Cardinality(T) \in {1, 3}) /\ bins' = SetToSortSeq(T, <)
Next == Row \/ Bin
Spec == Init /\ [][Next]_vars
Call(al) == [n \in 1..Len(rows) |-> [m \in 1..Len(bins) |->
  [hp |-> PlusOf(K(rows[n].s, bins[m]), rows[n], al), hc |-> CrossOf(K(rows[n].s, bins[m]), KC(rows[n].s, bins[m]), rows[n], al)]]]
Done == step = 4
\* a row is the same in every call that contains it
Alone == Done => \A al \in BOOLEAN : LET c == Call(al) IN \A n \in 1..Len(rows) : \A m \in 1..Len(bins) :
  c[n][m].hp = PlusOf(K(rows[n].s, bins[m]), rows[n], al)
One == step = 1 => LET r == rows[1] IN \A b \in F : LET k == K(r.s, b)  kc == KC(r.s, b) IN
  \* half a turn of phase of coalescence changes nothing, a quarter flips the sign
  /\ NearZ(AlignedPlus(k, r), AlignedPlus(k, [r EXCEPT !.p = r.p + 4]), 4) /\ NearZ(AlignedCross(k, r), AlignedCross(k, [r EXCEPT !.p = r.p + 4]), 4)
  /\ LET q == AlignedPlus(k, [r EXCEPT !.p = r.p + 2]) IN NearZ(AlignedPlus(k, r), <<-q[1], -q[2]>>, 12)
  \* from the other side the cross polarization changes sign
  /\ LET q == AlignedCross(k, [r EXCEPT !.i = 8 - r.i]) IN NearZ(AlignedCross(k, r), <<-q[1], -q[2]>>, 12)
  /\ NearZ(AlignedPlus(k, r), AlignedPlus(k, [r EXCEPT !.i = 8 - r.i]), 12)
  \* face on: circular; edge on: linear
  /\ r.i \in {0, 8} => LET a == AlignedPlus(k, r)  c == AlignedCross(k, r)
                       IN IF r.i = 0 THEN NearZ(c, <<a[2], -a[1]>>, 12) ELSE NearZ(c, <<-a[2], a[1]>>, 12)
  /\ r.i = 4 => NearZ(AlignedCross(k, r), <<0, 0>>, 3)
  \* distances
  /\ \A d \in {2, 5} : LET a == PlusOf(k, r, FALSE)  c == PlusOf(k, [r EXCEPT !.kd = r.kd * d], FALSE) IN NearZ(c, <<d * a[1], d * a[2]>>, 12)
  \* turning all vectors commutes with the choice of polarization
  /\ NearZ(CrossOf(k, kc, [r EXCEPT !.p = r.p + 4], FALSE), CrossOf(k, kc, r, FALSE), 6)
Leading == step = 0 =>
  /\ \A k, j \in 2..4 : \A d \in {1, 3, 10} : /\ Near(Newtonian(k, j, 2 * d), Newtonian(k, j, d) \div 2, 2)
                                               /\ (k < 4 => Newtonian(k + 1, j, d) < Newtonian(k, j, d)) /\ (j < 4 => Newtonian(k, j + 1, d) > Newtonian(k, j, d))
  /\ Newtonian(2, 2, 1) = Reference /\ Near(Newtonian(4, 2, 1) * 128, Reference, 128) /\ Near(Newtonian(2, 4, 1), 32 * Reference, 32)
Emit == Done => CSVWrite("%1$s", <<ToJson([rows |-> rows, bins |-> bins])>>, IOEnv.STIM)
=============================================================================
