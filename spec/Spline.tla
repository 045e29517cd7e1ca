-------------------------------- MODULE Spline --------------------------------
(* Spline interpolation on a grid. Coordinates are integers in quarters. The *)
(* axes are a sequence of one or two [k, grid, out]; out = <<>> when no      *)
(* output coordinates were given at construction.                            *)
EXTENDS Num, TLC
\* coordinates in force for a call: those of the call, else of construction
InForce(axis, given) == IF given # <<>> THEN given ELSE axis.out
Answerable(axes, given) == \A a \in 1..Len(axes) : InForce(axes[a], given[a]) # <<>>
Inside(axis, p) == axis.grid[1] <= p /\ p <= axis.grid[Len(axis.grid)]
\* index of p in the grid, 0 if between points
Knot(axis, p) == LET S == {i \in 1..Len(axis.grid) : axis.grid[i] = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* 4^k times the polynomial c (c[1] + c[2] x + ...) at x = p / 4, degree <= k
PolyN(c, k, p) == SumI(LAMBDA j : c[j + 1] * Pow(p, j) * Pow(4, k - j), 0, Len(c) - 1)
\* piecewise linear interpolation of 1000 times the data
Linear(grid, z, p) ==
  LET i == CHOOSE i \in 1..(Len(grid) - 1) : grid[i] <= p /\ p <= grid[i + 1] IN
  (1000 * (z[i] * (grid[i + 1] - p) + z[i + 1] * (p - grid[i]))) \div (grid[i + 1] - grid[i])
=============================================================================
