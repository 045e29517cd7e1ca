--------------------------- MODULE OnlineAverager ---------------------------
(* The streaming averager of overlapping predictions.                        *)
(*                                                                           *)
(* Prediction p of a stream (p = 0, 1, ...) speaks about the moments         *)
(*    p*u .. p*u + N*u - 1        (u = update size, N = number of updates)   *)
(* through the N*u samples that end `offset' samples before its end. Sums    *)
(* are kept undivided here: the code returns sum / N.                        *)
EXTENDS Windows

CONSTANT Streams

VARIABLES
  cfg,     \* [u, n, chans, offset]
  st,      \* stream -> channel -> partial sums of the (n-1)*u open moments
  out,     \* channel -> sums returned by the last call
  hist,    \* stream -> sequence of predictions (channel -> samples) (observer)
  done     \* stream -> number of predictions that are fully accounted for

avars == <<cfg, st, out, hist, done>>

Open(c) == (c.n - 1) * c.u
Span(c) == c.n * c.u
Blank(c) == [ch \in 1..c.chans |-> Zeros(Open(c))]

\* the part of one prediction that is used
Used(c, x) == [j \in 1..Span(c) |-> x[Len(x) - c.offset - Span(c) + j]]

Start(c) ==
  /\ cfg = c
  /\ st = [s \in Streams |-> Blank(c)]
  /\ hist = [s \in Streams |-> <<>>]
  /\ done = [s \in Streams |-> 0]
  /\ out = <<>>

Restart(s) ==
  /\ st' = [st EXCEPT ![s] = Blank(cfg)]
  /\ hist' = [hist EXCEPT ![s] = <<>>]
  /\ done' = [done EXCEPT ![s] = 0]
  /\ out' = <<>>
  /\ UNCHANGED cfg

\* one call with a batch of predictions (batch -> channel -> samples)
Total(s, preds, ch) ==
  LET b == Len(preds)
      len == b * cfg.u + Open(cfg)
      use == [i \in 1..b |-> Used(cfg, preds[i][ch])]
      term(i, t) == LET o == t - (i - 1) * cfg.u
                    IN IF o >= 1 /\ o <= Span(cfg) THEN use[i][o] ELSE 0
  IN  [t \in 1..len |->
         (IF t <= Open(cfg) THEN st[s][ch][t] ELSE 0)
         + SumI(LAMBDA i : term(i, t), 1, b)]

Push(s, preds) ==
  LET tot == [ch \in 1..cfg.chans |-> Total(s, preds, ch)]
      m == Len(preds) * cfg.u
  IN  /\ out' = [ch \in 1..cfg.chans |-> SubSeq(tot[ch], 1, m)]
      /\ st' = [st EXCEPT ![s] = [ch \in 1..cfg.chans |-> SubSeq(tot[ch], m + 1, m + Open(cfg))]]
      /\ hist' = [hist EXCEPT ![s] = @ \o preds]
      /\ done' = [done EXCEPT ![s] = @ + Len(preds)]
      /\ UNCHANGED cfg

\* ---- what the user relies on ------------------------------------------
\* sum over all predictions of the stream that speak about moment t (0-based)
SumAt(s, ch, t) ==
  LET lo == MaxI(0, t \div cfg.u - cfg.n + 1)
      hi == MinI(t \div cfg.u, Len(hist[s]) - 1)
  IN  SumI(LAMBDA p : Used(cfg, hist[s][p + 1][ch])[t - p * cfg.u + 1], lo, hi)

\* the last call returned the next consecutive moments
ReturnsAverages(s, b) ==
  \A ch \in 1..cfg.chans : \A j \in 1..(b * cfg.u) :
     out[ch][j] = SumAt(s, ch, (done[s] - b) * cfg.u + j - 1)

\* the state holds the open moments and nothing else
StateIsOpenMoments ==
  \A s \in Streams : \A ch \in 1..cfg.chans : \A j \in 1..Open(cfg) :
     st[s][ch][j] = SumAt(s, ch, done[s] * cfg.u + j - 1)
=============================================================================
