----------------------------- MODULE Snapshotter ----------------------------
(* The streaming snapshotter. One module object serves any number of streams *)
(* (the stream's state is returned to, and handed back by, the caller).      *)
(*                                                                           *)
(* Per stream the code keeps the last  size - stride  samples of each        *)
(* channel; an update of  batch * stride  samples yields `batch' overlapping *)
(* snapshots.                                                                *)
EXTENDS Windows, TLC

CONSTANT Streams          \* stream names

VARIABLES
  cfg,      \* [chans, size, stride, batch, split]   (split: channel groups)
  st,       \* stream -> channel -> retained samples (what the code carries)
  out,      \* the snapshots returned by the last call, one per batch element
  hist      \* stream -> channel -> everything pushed since the last restart
            \* (observer only: the declarative meaning is stated over it)

svars == <<cfg, st, out, hist>>

StateSize(c) == c.size - c.stride
Update(c) == c.batch * c.stride
Blank(c) == [ch \in 1..c.chans |-> Zeros(StateSize(c))]
Empty(c) == [ch \in 1..c.chans |-> <<>>]

Valid(c) ==
  /\ c.stride < c.size
  /\ c.split # <<>> => SumSeq(c.split) = c.chans

\* ---- actions -----------------------------------------------------------
Create(c) ==
  /\ cfg = [none |-> TRUE] /\ Valid(c)
  /\ cfg' = c
  /\ st' = [s \in Streams |-> Blank(c)]
  /\ hist' = [s \in Streams |-> Empty(c)]
  /\ out' = <<>>

\* the caller forgets the stream's state and starts over (passes no state)
Restart(s) ==
  /\ st' = [st EXCEPT ![s] = Blank(cfg)]
  /\ hist' = [hist EXCEPT ![s] = Empty(cfg)]
  /\ out' = <<>>
  /\ UNCHANGED cfg

\* one forward call with update u (channel -> Update(cfg) samples)
Joined(s, u) == [ch \in 1..cfg.chans |-> st[s][ch] \o u[ch]]
Snapshots(j) ==
  [b \in 1..cfg.batch |->
    [ch \in 1..cfg.chans |-> Window(j[ch], (b - 1) * cfg.stride, cfg.size)]]

Push(s, u) ==
  LET j == Joined(s, u)
  IN  /\ out' = Snapshots(j)
      /\ st' = [st EXCEPT ![s] = [ch \in 1..cfg.chans |-> LastN(j[ch], StateSize(cfg))]]
      /\ hist' = [hist EXCEPT ![s] = [ch \in 1..cfg.chans |-> hist[s][ch] \o u[ch]]]
      /\ UNCHANGED cfg

\* ---- what the user relies on ------------------------------------------
\* The snapshots of a stream are the overlapping windows of the zero-padded
\* stream, none skipped and none repeated, as if computed offline at once.
Padded(s, ch) == Zeros(StateSize(cfg)) \o hist[s][ch]

OfflineWindow(s, ch, n) == Window(Padded(s, ch), (n - 1) * cfg.stride, cfg.size)

\* state is a suffix of the padded stream
StateIsSuffix ==
  "none" \notin DOMAIN cfg =>
  \A s \in Streams : \A ch \in 1..cfg.chans :
    st[s][ch] = LastN(Padded(s, ch), StateSize(cfg))

\* total number of snapshots emitted for a stream since its restart
Emitted(s) == Len(hist[s][1]) \div cfg.stride

\* action property: each call emits exactly the next `batch' offline windows
StreamEqualsOffline(s) ==
  \A b \in 1..cfg.batch : \A ch \in 1..cfg.chans :
     out[b][ch] = OfflineWindow(s, ch, Emitted(s) - cfg.batch + b)
=============================================================================
