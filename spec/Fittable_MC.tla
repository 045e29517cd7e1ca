---------------------------- MODULE Fittable_MC -----------------------------
EXTENDS Fittable, Json, CSV, IOUtils, TLC
VARIABLES sched, legit     \* legit[i]: history variable, i was fitted/loaded/copied from such
mcvars == <<vars, sched, legit>>
Thorough == IOEnv.TIER = "thorough"
MaxLen == IF Thorough THEN 4 ELSE 3
Init == Init0 /\ sched = <<>> /\ legit = [i \in Inst |-> FALSE]
S(e) == sched' = Append(sched, e)
Next ==
  /\ Len(sched) < MaxLen
  /\ \E i \in Inst :
       \/ Construct(i) /\ S(<<"construct", i, 0>>) /\ legit' = [legit EXCEPT ![i] = FALSE]
       \/ \E d \in 1..2 : Fit(i, d) /\ S(<<"fit", i, d>>) /\ legit' = [legit EXCEPT ![i] = TRUE]
       \/ \E d \in 1..2 : FitFails(i) /\ S(<<"fitfails", i, d>>) /\ UNCHANGED legit
       \/ \E s \in Slots : Save(i, s) /\ S(<<"save", i, s>>) /\ UNCHANGED legit
       \/ \E s \in Slots : slot[s] # Mixed /\ Load(i, s) /\ S(<<"load", i, s>>) /\ legit' = [legit EXCEPT ![i] = TRUE]
       \/ \E m \in 1..3 : LoadFails(i) /\ S(<<"loadfails", i, m>>) /\ UNCHANGED legit
       \/ \E j \in Inst \ {i} : Copy(i, j) /\ S(<<"copy", i, j>>) /\ legit' = [legit EXCEPT ![j] = legit[i]]
       \/ Apply(i) /\ S(<<"apply", i, 0>>) /\ UNCHANGED legit
Spec == Init /\ [][Next]_mcvars
\* usable exactly when the history contains a successful fit or complete load
Guarded == \A i \in Inst : Usable(i) <=> legit[i]
\* an instance is only changed by operations on it
Isolation == [][\A i \in Inst :
   (sched' # sched /\ sched'[Len(sched')][2] # i /\ ~(sched'[Len(sched')][1] = "copy" /\ sched'[Len(sched')][3] = i))
     => (built'[i] = built[i] /\ par'[i] = par[i])]_mcvars
Emit == Len(sched) = MaxLen => CSVWrite("%1$s", <<ToJson([sched |-> sched])>>, IOEnv.STIM)
=============================================================================
