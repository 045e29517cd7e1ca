-------------------------------- MODULE Hdf5 --------------------------------
(* HDF5 dataset: (i) how an epoch is shared among loader workers, (ii) what  *)
(* a batch may contain.                                                      *)
EXTENDS Windows

\* ------------------------------------------------------------ worker epoch
\*   bpe  : batches per epoch       nw : number of workers (0: main process)
\*   done : batches each worker has delivered this epoch
\*   over : workers whose iteration has ended
VARIABLES bpe, nw, done, over
wvars == <<bpe, nw, done, over>>
Workers(w) == 0..(MaxI(w, 1) - 1)
MakeEpoch(b, w) == /\ bpe' = b /\ nw' = w /\ done' = [i \in Workers(w) |-> 0] /\ over' = {}
Total == SumSeq([i \in 1..Cardinality(DOMAIN done) |-> done[i - 1]])
FloorShare == bpe \div MaxI(nw, 1)
CeilShare == CeilDiv(bpe, MaxI(nw, 1))
\* a worker may deliver as long as shares stay within one of each other and
\* the epoch's total is not exceeded
CanWork(w) == w \notin over /\ done[w] < CeilShare /\ Total < bpe
Work(w) == done' = [done EXCEPT ![w] = @ + 1] /\ UNCHANGED <<bpe, nw, over>>
\* stopping is only allowed with a full share, and the last one to stop must
\* leave nothing undone
CanStop(w) == /\ w \notin over /\ done[w] >= FloorShare
              /\ (over \cup {w} = DOMAIN done) => Total = bpe
Stop(w) == over' = over \cup {w} /\ UNCHANGED <<bpe, nw, done>>
NextEpoch == done' = [i \in DOMAIN done |-> 0] /\ over' = {} /\ UNCHANGED <<bpe, nw>>

AllStopped == over = DOMAIN done
Exact == AllStopped => Total = bpe
NeverTooMany == Total <= bpe
Balanced == AllStopped => \A i, j \in DOMAIN done : done[i] - done[j] <= 1

\* ------------------------------------------------------- contents of a batch
\* sample t of channel ch (from 1) in file f (from 1)
FileStep == 100000
ChanStep == 10000
Value(f, ch, t) == f * FileStep + (ch - 1) * ChanStep + t
FileOf(v) == v \div FileStep
ChanOf(v) == ((v % FileStep) \div ChanStep) + 1
TimeOf(v) == v % ChanStep
Starts(len, k) == 0..(len - k)
=============================================================================
