------------------------------ MODULE Windows -------------------------------
(* Windows of a timeseries: the vocabulary shared by the slicing, streaming, *)
(* dataloading and spectral specifications. A timeseries is a sequence; a    *)
(* multichannel one a sequence of equally long sequences.                    *)
EXTENDS Num

\* number of windows of size k at stride s in n samples (0 if none fits)
NumWindows(n, k, s) == IF n < k THEN 0 ELSE (n - k) \div s + 1
\* the window of size k whose first sample is at (0-based) index i
Window(x, i, k) == [j \in 1..k |-> x[i + j]]
\* all windows, in order
WindowsOf(x, k, s) == [w \in 1..NumWindows(Len(x), k, s) |-> Window(x, (w - 1) * s, k)]
\* samples after the last window
Remainder(x, k, s) ==
  LET e == (NumWindows(Len(x), k, s) - 1) * s + k
  IN  [j \in 1..(Len(x) - e) |-> x[e + j]]
LastN(x, n) == [j \in 1..n |-> x[Len(x) - n + j]]
Zeros(n) == [j \in 1..n |-> 0]
=============================================================================
