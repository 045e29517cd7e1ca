------------------------------- MODULE Hdf5_MC -------------------------------
(* The split of an epoch over workers as the implementation computes it (an  *)
(* equal share each, one more for the first few) is always allowed by the    *)
(* specification, whatever the interleaving, in every epoch.                 *)
EXTENDS Hdf5, Json, CSV, IOUtils, TLC
VARIABLES epoch, sched
Thorough == IOEnv.TIER = "thorough"
MaxB == IF Thorough THEN 6 ELSE 4
MaxW == 3
ImplShare(w) == (bpe \div MaxI(nw, 1)) + (IF w < bpe % MaxI(nw, 1) THEN 1 ELSE 0)
Init == /\ bpe \in 0..MaxB /\ nw \in 0..MaxW
        /\ done = [i \in Workers(nw) |-> 0] /\ over = {} /\ epoch = 1 /\ sched = <<>>
Next ==
  \/ \E w \in DOMAIN done :
       \/ done[w] < ImplShare(w) /\ w \notin over /\ Work(w) /\ sched' = Append(sched, w) /\ UNCHANGED epoch
       \/ done[w] = ImplShare(w) /\ w \notin over /\ Stop(w) /\ sched' = Append(sched, w) /\ UNCHANGED epoch
  \/ AllStopped /\ epoch < 2 /\ NextEpoch /\ epoch' = epoch + 1 /\ sched' = <<>>
Spec == Init /\ [][Next]_<<wvars, epoch, sched>>
\* refinement: every step the implementation can take is allowed
Allowed == \A w \in DOMAIN done :
   /\ (done[w] < ImplShare(w) /\ w \notin over) => CanWork(w)
   /\ (done[w] = ImplShare(w) /\ w \notin over) => CanStop(w)
Shares == SumSeq([i \in 1..Cardinality(DOMAIN done) |-> ImplShare(i - 1)]) = bpe
Emit == (AllStopped /\ epoch = 2) => CSVWrite("%1$s", <<ToJson([bpe |-> bpe, nw |-> nw, sched |-> sched])>>, IOEnv.STIM)
=============================================================================
