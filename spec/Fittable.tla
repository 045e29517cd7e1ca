------------------------------ MODULE Fittable ------------------------------
(* Life cycle of transforms whose parameters are fitted. Several instances   *)
(* and slots holding saved parameters. A parameter set is named by the data  *)
(* it was fitted on; None: construction values; Mixed: unknown (an operation *)
(* on a fitted instance failed half way).                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Inst, Slots
None == 0
Mixed == -1
VARIABLES built, par, slot
vars == <<built, par, slot>>

Init0 == /\ built = [i \in Inst |-> FALSE] /\ par = [i \in Inst |-> None]
         /\ slot = [s \in Slots |-> None]
Construct(i) == built' = [built EXCEPT ![i] = FALSE] /\ par' = [par EXCEPT ![i] = None] /\ UNCHANGED slot
Fit(i, d) == built' = [built EXCEPT ![i] = TRUE] /\ par' = [par EXCEPT ![i] = d] /\ UNCHANGED slot
\* a fit that raises: an unfitted instance stays unfitted, a fitted one usable;
\* which parameters it holds afterwards is not specified
FitFails(i) == /\ par' = [par EXCEPT ![i] = Mixed]
               /\ UNCHANGED <<built, slot>>
Save(i, s) == slot' = [slot EXCEPT ![s] = par[i]] /\ UNCHANGED <<built, par>>
\* saved construction values are a complete set of parameters too
Load(i, s) == /\ built' = [built EXCEPT ![i] = TRUE]
              /\ par' = [par EXCEPT ![i] = slot[s]] /\ UNCHANGED slot
\* a load that lacks some of the parameters, or has them in the wrong shape
LoadFails(i) == /\ par' = [par EXCEPT ![i] = Mixed]
                /\ UNCHANGED <<built, slot>>
Copy(i, j) == /\ built' = [built EXCEPT ![j] = built[i]]
              /\ par' = [par EXCEPT ![j] = par[i]] /\ UNCHANGED slot
Apply(i) == UNCHANGED vars
Usable(i) == built[i]
=============================================================================
