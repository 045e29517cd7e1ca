---------------------------- MODULE InMemory_Gen ----------------------------
(* Schedules for the conformance driver: every sequence of open/next/abandon *)
(* over two epochs, contents fixed to one admissible choice.                 *)
EXTENDS InMemory, Json, CSV, IOUtils, TLC
VARIABLES sched
mcvars == <<cfg, ep, sched>>
Thorough == IOEnv.TIER = "thorough"
MaxLen == IF Thorough THEN 7 ELSE 5
Configs == {c \in [t : {4}, c : 1..2, k : 1..2, s : 1..2, b : 1..2, bpe : {0, 1, 2},
                   coin : BOOLEAN, shuf : BOOLEAN, y : BOOLEAN] :
              ~Refused(c) /\ NK(c) <= 4 /\ (c.y => c.c = 1)}
Init == /\ \E c \in Configs : cfg = c
        /\ ep = [e \in Epochs |-> Shut] /\ sched = <<>>
Pick(r) == LET n == BatchSize(cfg, r.n) IN [i \in 1..n |-> Ordered(cfg, Len(r.got) + i - 1)]
Next ==
  /\ Len(sched) < MaxLen
  /\ \E e \in Epochs :
       \/ ~ep[e].open /\ Open(e) /\ sched' = Append(sched, <<"open", e>>)
       \/ CanDeliver(e) /\ Deliver(e, Pick(ep[e])) /\ sched' = Append(sched, <<"next", e>>)
       \/ CanExhaust(e) /\ Exhaust(e) /\ sched' = Append(sched, <<"next", e>>)
       \/ ep[e].open /\ Abandon(e) /\ sched' = Append(sched, <<"abandon", e>>)
Spec == Init /\ [][Next]_mcvars
Admissible == \A e \in Epochs : (ep[e].open /\ CanDeliver(e)) => IsNextBatch(cfg, ep[e], Pick(ep[e]))
Isolation == [][\A e \in Epochs : (sched' # sched /\ sched'[Len(sched')][2] # e) => ep'[e] = ep[e]]_mcvars
Emit == Len(sched) = MaxLen => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, sched |-> sched])>>, IOEnv.STIM)
=============================================================================
