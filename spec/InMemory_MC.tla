---------------------------- MODULE InMemory_MC -----------------------------
(* Exhaustive: every small dataset, every interleaving of opening, advancing *)
(* and abandoning two epochs, every choice a shuffled epoch may make.        *)
EXTENDS InMemory, IOUtils, TLC
Thorough == IOEnv.TIER = "thorough"
MaxNK == IF Thorough THEN 4 ELSE 3
Configs == {c \in [t : 1..6, c : 1..2, k : 1..2, s : 1..2, b : 1..3, bpe : 0..2,
                   coin : BOOLEAN, shuf : BOOLEAN, y : {FALSE}] :
              /\ c.t >= c.k /\ ~Refused(c) /\ (c.c = 2) = ~c.coin
              /\ NK(c) <= (IF c.coin \/ ~c.shuf THEN MaxNK ELSE 2)}
Init == /\ \E c \in Configs : cfg = c
        /\ ep = [e \in Epochs |-> Shut]
Batches(c, n) == [1..n -> IF c.coin THEN {Same(c, w) : w \in 0..(NK(c) - 1)} ELSE [1..c.c -> 0..(NK(c) - 1)]]
Next ==
  \E e \in Epochs :
       \/ ~ep[e].open /\ Open(e)
       \/ /\ CanDeliver(e)
          /\ \E ws \in Batches(cfg, BatchSize(cfg, ep[e].n)) :
               IsNextBatch(cfg, ep[e], ws) /\ Deliver(e, ws)
       \/ CanExhaust(e) /\ Exhaust(e)
       \/ ep[e].open /\ Abandon(e)
Spec == Init /\ [][Next]_vars
\* an epoch that is not over can always go on: never stuck short of its length
NeverStuck == \A e \in Epochs : (ep[e].open /\ ~ep[e].over) =>
   \/ CanExhaust(e)
   \/ \E ws \in Batches(cfg, BatchSize(cfg, ep[e].n)) : IsNextBatch(cfg, ep[e], ws)
=============================================================================
