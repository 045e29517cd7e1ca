------------------------------ MODULE Spline_MC -------------------------------
(* One interpolator of one or two axes called again and again, with or       *)
(* without coordinates: an answer uses the coordinates of its own call, or   *)
(* those of construction, and no others. Coordinate sets are named 1, 2, 3.  *)
EXTENDS Spline, Json, CSV, IOUtils
VARIABLES axes, hist, ans
vars == <<axes, hist, ans>>
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 4 ELSE 3
C == {<<>>, <<1>>, <<2>>}
Axis(o) == [k |-> 1, grid |-> <<0, 4, 8>>, out |-> o]
Init == axes \in ({<<Axis(o)>> : o \in C} \cup {<<Axis(o), Axis(p)>> : o, p \in C}) /\ hist = <<>> /\ ans = <<>>
Next == Len(hist) < Depth /\ \E g \in [1..Len(axes) -> C] :
  /\ hist' = Append(hist, g) /\ UNCHANGED axes
  /\ ans' = IF Answerable(axes, g) THEN [a \in 1..Len(axes) |-> InForce(axes[a], g[a])] ELSE <<>>
Spec == Init /\ [][Next]_vars
OwnCall == hist # <<>> => \A a \in 1..Len(axes) :
  ans # <<>> => ans[a] = IF hist[Len(hist)][a] # <<>> THEN hist[Len(hist)][a] ELSE axes[a].out
Refused == (hist # <<>> /\ ans = <<>>) <=> (hist # <<>> /\ \E a \in 1..Len(axes) : hist[Len(hist)][a] = <<>> /\ axes[a].out = <<>>)
\* linear interpolation reproduces lines and grid points
Lines == hist = <<>> => \A a, b \in -2..2 : \A p \in 0..8 :
  LET g == <<0, 3, 4, 8>> IN
  /\ Linear(g, [i \in 1..4 |-> 4 * a + b * g[i]], p) = 1000 * PolyN(<<a, b>>, 1, p)
  /\ Knot([grid |-> g], p) # 0 => Linear(g, <<5, 1, 7, 2>>, p) = 1000 * <<5, 1, 7, 2>>[Knot([grid |-> g], p)]
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([out |-> [a \in 1..Len(axes) |-> axes[a].out], h |-> hist])>>, IOEnv.STIM)
=============================================================================
