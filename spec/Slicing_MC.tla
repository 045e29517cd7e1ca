----------------------------- MODULE Slicing_MC -----------------------------
(* Every small (length, window, stride, offset): the operational description *)
(* agrees with the declarative one, and sampling bounds imply the promises.  *)
EXTENDS Slicing, Json, CSV, IOUtils, TLC
VARIABLES p
Thorough == IOEnv.TIER = "thorough"
MaxT == IF Thorough THEN 16 ELSE 9
Init == p \in [t : 1..MaxT, k : 1..MaxT, s : 1..(MaxT \div 2), off : -4..5]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
Fits == p.k <= p.t
UnfoldAgrees ==
  Fits => LET n == NumWindows(p.t, p.k, p.s) IN
    /\ OpColumns(p.t, p.k, p.s) = p.k
    /\ \A w \in 1..n : \A j \in 0..(p.k - 1) :
         OpColumn(p.t, p.k, p.s, j)[w] = UnfoldId(<<p.t>>, p.k, p.s, w - 1, 0, j)
NothingLost ==   \* stride <= window: windows plus remainder cover the series
  (Fits /\ p.s <= p.k) =>
     LET d == UnfoldData(<<p.t>>, p.k, p.s)  r == RemData(<<p.t>>, p.k, p.s)
     IN  {d[i] : i \in 1..Len(d)} \cup {r[i] : i \in 1..Len(r)} = 0..(p.t - 1)
RemainderShort == Fits => RemSize(p.t, p.k, p.s) \in 0..(p.s - 1)
\* the code's half-open range of starts only contains promised positions
BoundsSound ==
  LET off == IF p.off = 5 THEN <<>> ELSE <<p.off>> IN
  ~SampleRefused(<<2, p.t>>, p.k, 1, off) =>
     \A i \in Lo(p.t, p.k, off)..(Hi(p.t, p.k, off) - 1) : StartOk(p.t, p.k, off, i)
Emit == (p.off = 0 /\ Fits) =>
   CSVWrite("%1$s", <<ToJson([t |-> p.t, k |-> p.k, s |-> p.s])>>, IOEnv.STIM)
=============================================================================
