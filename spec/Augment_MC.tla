------------------------------ MODULE Augment_MC ------------------------------
(* A batch of marked series going through chains of augmentations: every     *)
(* series stays in its place and is one of the four images of itself; the    *)
(* parts that were certain can be undone.                                    *)
EXTENDS Augment, Json, CSV, IOUtils
VARIABLES x, hist
vars == <<x, hist>>
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 4 ELSE 3
S == 2
Start(s) == <<10 * s + 1, 10 * s + 2, 10 * s + 3>>
Probs == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>}
Init == x = [s \in 1..S |-> Start(s)] /\ hist = <<>>
Next == Len(hist) < Depth /\ \E kind \in {"inv", "rev"}, p \in Probs :
  /\ hist' = Append(hist, <<kind, p>>)
  /\ x' \in {y \in [1..S -> UNION {Outcomes(kind, p, x[s]) : s \in 1..S}] : \A s \in 1..S : y[s] \in Outcomes(kind, p, x[s])}
Spec == Init /\ [][Next]_vars
Images == \A s \in 1..S : x[s] \in {Start(s), Flip("inv", Start(s)), Flip("rev", Start(s)), Flip("inv", Flip("rev", Start(s)))}
\* chances nought and one decide: the image after certain steps is determined
Certain(kind) == Cardinality({i \in 1..Len(hist) : hist[i][1] = kind /\ hist[i][2][1] = hist[i][2][2]}) % 2
Determined == (\A i \in 1..Len(hist) : hist[i][2] \in {<<0, 1>>, <<1, 1>>}) => \A s \in 1..S :
  LET a == IF Certain("inv") = 1 THEN Flip("inv", Start(s)) ELSE Start(s) IN x[s] = IF Certain("rev") = 1 THEN Flip("rev", a) ELSE a
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([h |-> hist])>>, IOEnv.STIM)
=============================================================================
