------------------------------ MODULE Chunked -------------------------------
(* The chunked dataset: a source of chunks, the chunk being served and how   *)
(* many batches have been served from it. A chunk has shape <<n, c, t>>.     *)
(*   cfg  : k kernel, b batch size, bpc batches per chunk, coin              *)
(*   cur  : shape of the current chunk (<<>> before the first)               *)
(*   q    : number of chunks pulled so far                                   *)
(*   served : batches served from the current chunk                          *)
(*   total  : batches served altogether                                      *)
(*   phase  : "run" | "end" | "failed"                                       *)
EXTENDS Windows
VARIABLES cfg, cur, q, served, total, phase
vars == <<cfg, cur, q, served, total, phase>>

Make(c) == /\ cfg' = c /\ cur' = <<>> /\ q' = 0 /\ served' = 0 /\ total' = 0 /\ phase' = "run"
Due == phase = "run" /\ cur # <<>> /\ served < cfg.bpc      \* owes a batch
TooShort == cur # <<>> /\ cur[3] < cfg.k
CanPull == phase = "run" /\ (cur = <<>> \/ (~TooShort /\ served = cfg.bpc))
Pull(sh) == /\ cur' = sh /\ q' = q + 1 /\ served' = 0 /\ UNCHANGED <<cfg, total, phase>>
\* a draw is <<element, time>> per batch element and channel
DrawOk(dr) ==
  /\ Len(dr) = cfg.b
  /\ \A i \in 1..cfg.b :
       /\ Len(dr[i]) = cur[2]
       /\ \A ch \in 1..cur[2] : dr[i][ch][1] \in 0..(cur[1] - 1) /\ dr[i][ch][2] \in 0..(cur[3] - cfg.k)
       /\ cfg.coin => \A ch \in 1..cur[2] : dr[i][ch] = dr[i][1]
CanServe == Due /\ ~TooShort
Serve == served' = served + 1 /\ total' = total + 1 /\ UNCHANGED <<cfg, cur, q, phase>>
CanEnd == phase = "run" /\ (cur = <<>> \/ (~TooShort /\ served = cfg.bpc))
End == phase' = "end" /\ UNCHANGED <<cfg, cur, q, served, total>>
Fail == phase' = "failed" /\ UNCHANGED <<cfg, cur, q, served, total>>

\* flat position, in a chunk of shape sh, of sample j of draw <<n, t>> in channel ch
Flat(sh, n, ch, t, j) == (n * sh[2] + (ch - 1)) * sh[3] + t + j
ElementOf(sh, p) == p \div (sh[2] * sh[3])
ChannelOf(sh, p) == ((p \div sh[3]) % sh[2]) + 1
TimeOf(sh, p) == p % sh[3]

\* --------------------------------------------------------------- properties
PerChunk == served <= cfg.bpc /\ (phase = "end" => total = q * cfg.bpc)
\* kernels never straddle an element or channel boundary
Contained ==
  (cur # <<>> /\ ~TooShort) =>
    \A n \in 0..(cur[1] - 1) : \A ch \in 1..cur[2] : \A t \in 0..(cur[3] - cfg.k) : \A j \in 0..(cfg.k - 1) :
       LET p == Flat(cur, n, ch, t, j) IN
       /\ p < cur[1] * cur[2] * cur[3]
       /\ ElementOf(cur, p) = n /\ ChannelOf(cur, p) = ch /\ TimeOf(cur, p) = t + j
=============================================================================
