----------------------------- MODULE Sampler_Trace ----------------------------
(* "new": a bank is stored (the number of rows and of columns under each     *)
(* name; entry (r, c) of the k-th name is code 100000 k + 100 r + c).        *)
(* "draw": what was drawn, under the names it was given.                     *)
EXTENDS Sampler, TraceKit
VARIABLES l, bad, cur
vars == <<l, bad, cur>>
e == Trace[l]
B == Trace[cur]
Is(op) == l <= Len(Trace) /\ e.op = op
Verdict(v) == l' = l + 1 /\ bad' = Report(bad, l, v)
K(b) == Len(b.names)
Bad(b) == \E j, k \in 1..K(b) : b.rows[j] # b.rows[k]
New == Is("new") /\ cur' = l /\ Verdict(
  IF Bad(e) THEN IF e.err = "ValueError" THEN "" ELSE "inconsistent numbers of rows accepted"
  ELSE IF e.err # "" THEN "constructor raised" ELSE "")
N == B.rows[1]
Code(k, r, c) == 100000 * k + 100 * r + c
\* row of the bank that row i under name k is, 0 if none
RowOf(k, i) == LET w == B.cols[k]  s == SubSeq(e.d[k], (i - 1) * w + 1, i * w)
                   r == (s[1] % 100000) \div 100 IN
               IF r \in 1..N /\ s = [c \in 1..w |-> Code(k, r, c)] THEN r ELSE 0
Draw == Is("draw") /\ UNCHANGED cur /\ Verdict(
  IF e.n > N THEN IF e.err = "ValueError" THEN "" ELSE "more than stored not refused"
  ELSE IF e.err # "" THEN "call raised"
  ELSE IF e.changed THEN "drawing changed what is stored"
  ELSE IF e.names # B.names THEN "names of what was drawn"
  ELSE LET want == IF e.n = -1 THEN N ELSE e.n IN
  IF \E k \in 1..K(B) : e.sh[k] # <<want, B.cols[k]>> THEN "number of waveforms drawn"
  ELSE LET idx == [i \in 1..want |-> RowOf(1, i)] IN
  IF \E k \in 1..K(B) : \E i \in 1..want : RowOf(k, i) = 0 THEN "not a stored waveform"
  ELSE IF \E k \in 2..K(B) : \E i \in 1..want : RowOf(k, i) # idx[i] THEN "polarizations and parameters of different waveforms"
  ELSE IF ~Admits([w |-> [i \in 1..N |-> i]], e.n, idx) THEN "everything is not in order" ELSE "")
\* t draws of n: how often each stored waveform came at each place
Stat == Is("stat") /\ UNCHANGED cur /\ Verdict(
  IF e.err # "" THEN "call raised"
  ELSE IF \E r \in 1..N : ~Plausible(Cardinality({i \in 1..Len(e.rows) : e.rows[i] = r}), 1, N, Len(e.rows)) THEN "some waveforms are preferred"
  ELSE IF e.n > 1 /\ \E r \in 1..N : \E j \in 1..e.n : ~Plausible(Cardinality({t \in 1..e.t : e.rows[(t - 1) * e.n + j] = r}), 1, N, e.t) THEN "places prefer waveforms"
  ELSE "")
Other == l <= Len(Trace) /\ e.op \notin {"new", "draw", "stat"} /\ UNCHANGED cur /\ Verdict("unexpected exception")
Init == l = 1 /\ bad = <<>> /\ cur = 0
Finish == l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<bad, cur>>
Spec == Init /\ [][New \/ Draw \/ Stat \/ Other \/ Finish]_vars
=============================================================================
