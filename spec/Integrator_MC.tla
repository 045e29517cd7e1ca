--------------------------- MODULE Integrator_MC ------------------------------
(* The leaky integrator fed one sample at a time, every history: the state   *)
(* equals the closed form (cumulative sum minus its deepest excursion below  *)
(* the floor), never lies below the floor, and grows by at most one step.    *)
(* The running mean of the history is recomputed incrementally.              *)
EXTENDS Integrator, Json, CSV, IOUtils
VARIABLES par, x, v, hat
vars == <<par, x, v, hat>>
Thorough == IOEnv.TIER = "thorough"
MaxT == IF Thorough THEN 5 ELSE 4
Samples == -2..3
W == 2
Pars == [threshold : {-1, 1, 2}, decay : {0, 1, 3}, floor : {-3, 0, 2}, count : BOOLEAN]
Init == par = <<>> /\ x = <<>> /\ v = 0 /\ hat = 0
Choose == par = <<>> /\ \E p \in Pars : par' = <<p>> /\ UNCHANGED <<x, v, hat>>
Step == par # <<>> /\ Len(x) < MaxT /\ \E s \in Samples :
  /\ x' = Append(x, s)
  /\ v' = Leak(v, Delta(s, par[1].threshold, 2, par[1].decay, par[1].count), par[1].floor)
  /\ hat' = hat + s - (IF Len(x) >= W THEN x[Len(x) - W + 1] ELSE 0)
  /\ UNCHANGED par
Next == Choose \/ Step
Spec == Init /\ [][Next]_vars
D(i) == Delta(x[i], par[1].threshold, 2, par[1].decay, par[1].count)
Raw(t) == SumI(LAMBDA i : D(i), 1, t)
ClosedForm == x # <<>> =>
  v = Raw(Len(x)) - MinI(0, FoldLeft(LAMBDA a, t : MinI(a, Raw(t) - par[1].floor), 0, [t \in 1..Len(x) |-> t]))
Whole == x # <<>> => LET o == Leaky(x, par[1].threshold, 2, par[1].decay, par[1].floor, par[1].count) IN o[Len(x)] = v
Floor == x # <<>> => v >= par[1].floor
Hat == x # <<>> => hat = HatSum(x, Len(x), W)
Grows == [][par' = par => (v' <= MaxI(par'[1].floor, v + MaxI(2, MaxI(x'[Len(x')], 0))))]_vars
Emit == Len(x) = MaxT => CSVWrite("%1$s", <<ToJson([x |-> x, p |-> par[1]])>>, IOEnv.STIM)
=============================================================================
