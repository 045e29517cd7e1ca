------------------------------ MODULE InMemory ------------------------------
(* The in-memory dataset as a state machine: a dataset (its settings) and    *)
(* any number of epochs (iterators), each of which delivers batches of       *)
(* windows until it is exhausted or abandoned.                               *)
(*   cfg : t samples, c channels, k kernel, s stride, b batch size,          *)
(*         bpe batches per epoch (0: no limit), coin, shuf, y (has target)   *)
(*   ep  : per epoch, [got: delivered windows in order, n: batches, over]    *)
(* A window is a sequence with one window number per channel.                *)
EXTENDS Windows

CONSTANT Epochs
VARIABLES cfg, ep
vars == <<cfg, ep>>

NK(c) == IF c.t < c.k THEN 0 ELSE NumWindows(c.t, c.k, c.s)
Refused(c) ==
  \/ c.y /\ ~c.coin
  \/ ~c.coin /\ c.bpe = 0
  \/ c.bpe > 0 /\ NK(c) < c.b * c.bpe

NumBatches(c) == IF c.bpe > 0 THEN c.bpe ELSE CeilDiv(NK(c), c.b)
\* windows an epoch delivers altogether
Total(c) == IF c.bpe > 0 THEN c.b * c.bpe ELSE NK(c)
BatchSize(c, i) == IF c.bpe > 0 THEN c.b ELSE MinI(c.b, NK(c) - i * c.b)   \* i from 0

Same(c, w) == [ch \in 1..c.c |-> w]
\* m-th window (from 0) of an unshuffled epoch: the m-th number in base NK,
\* most significant digit first, so that the last channel moves fastest
RECURSIVE PowCap(_, _)
PowCap(b, e) == IF e = 0 THEN 1 ELSE LET r == PowCap(b, e - 1) IN IF r > 1000000 THEN r ELSE r * b
Ordered(c, m) == IF c.coin THEN Same(c, m)
                 ELSE [ch \in 1..c.c |-> (m \div PowCap(NK(c), c.c - ch)) % NK(c)]

Fresh == [got |-> <<>>, n |-> 0, over |-> FALSE, open |-> TRUE]
Shut == [got |-> <<>>, n |-> 0, over |-> TRUE, open |-> FALSE]

Make(c) == cfg' = c /\ ep' = [e \in Epochs |-> Shut]
Open(e) == ep' = [ep EXCEPT ![e] = Fresh] /\ UNCHANGED cfg

\* windows that may come next in epoch r
IsNextBatch(c, r, ws) ==
  /\ Len(ws) = BatchSize(c, r.n)
  /\ \A i \in 1..Len(ws) :
       LET m == Len(r.got) + i - 1 IN
       /\ Len(ws[i]) = c.c
       /\ \A ch \in 1..c.c : ws[i][ch] \in 0..(NK(c) - 1)
       /\ c.coin => \A ch \in 1..c.c : ws[i][ch] = ws[i][1]
       /\ ~c.shuf => ws[i] = Ordered(c, m)
       /\ (c.coin /\ c.shuf) => /\ \A j \in 1..Len(r.got) : r.got[j] # ws[i]
                                /\ \A j \in 1..(i - 1) : ws[j] # ws[i]
Deliver(e, ws) ==
  ep' = [ep EXCEPT ![e].got = @ \o ws, ![e].n = @ + 1] /\ UNCHANGED cfg
CanDeliver(e) == ep[e].open /\ ~ep[e].over /\ ep[e].n < NumBatches(cfg)
Exhaust(e) == ep' = [ep EXCEPT ![e].over = TRUE] /\ UNCHANGED cfg
CanExhaust(e) == ep[e].open /\ ~ep[e].over /\ ep[e].n = NumBatches(cfg)
Abandon(e) == ep' = [ep EXCEPT ![e] = Shut] /\ UNCHANGED cfg

\* ------------------------------------------------------------ properties
\* no window twice in one coincident epoch
NoRepeat == \A e \in Epochs : cfg.coin => Distinct(ep[e].got)
\* an exhausted epoch has delivered the promised number of windows
Complete == \A e \in Epochs : (ep[e].open /\ ep[e].over) => Len(ep[e].got) = Total(cfg)
\* without a batch limit: every window that fits, exactly once
ExactlyAll ==
  \A e \in Epochs : (ep[e].open /\ ep[e].over /\ cfg.coin /\ cfg.bpe = 0) =>
     IsPerm([i \in 1..Len(ep[e].got) |-> ep[e].got[i][1]], 0..(NK(cfg) - 1))
InOrder == \A e \in Epochs : (cfg.coin /\ ~cfg.shuf) =>
              \A i \in 1..Len(ep[e].got) : ep[e].got[i][1] = i - 1
\* unshuffled independent: lexicographic order, never the same twice
Lexicographic ==
  \A e \in Epochs : (~cfg.coin /\ ~cfg.shuf) =>
     \A i \in 1..(Len(ep[e].got) - 1) :
        \E ch \in 1..cfg.c : /\ \A h \in 1..(ch - 1) : ep[e].got[i][h] = ep[e].got[i + 1][h]
                             /\ ep[e].got[i + 1][ch] = ep[e].got[i][ch] + 1
                             /\ \A h \in (ch + 1)..cfg.c : ep[e].got[i + 1][h] = 0
=============================================================================
