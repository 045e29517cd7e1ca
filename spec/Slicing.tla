------------------------------- MODULE Slicing ------------------------------
(* Unfolding, slicing and random sampling of kernels. Data are tensors whose *)
(* entry at row-major position m (0-based) has the identity m, so that what  *)
(* a kernel contains says where it was taken from.                           *)
EXTENDS Windows

LastE(s) == s[Len(s)]
Rows(sh) == ProdSeq(Front(sh))      \* series in a tensor of shape sh

\* ------------------------------------------------------------- unfolding
\* declarative: series r, window w, sample j of the unfolded tensor
UnfoldShape(sh, k, s) == <<NumWindows(LastE(sh), k, s)>> \o Front(sh) \o <<k>>
UnfoldId(sh, k, s, w, r, j) == r * LastE(sh) + w * s + j
\* the remainder: samples after the last window, same leading axes
RemSize(t, k, s) == t - ((NumWindows(t, k, s) - 1) * s + k)
RemShape(sh, k, s) == <<1>> \o Front(sh) \o <<RemSize(LastE(sh), k, s)>>

UnfoldData(sh, k, s) ==
  LET n == NumWindows(LastE(sh), k, s)  R == Rows(sh)
  IN  [m \in 1..(n * R * k) |->
         LET z == m - 1 IN UnfoldId(sh, k, s, z \div (R * k), (z \div k) % R, z % k)]
RemData(sh, k, s) ==
  LET t == LastE(sh)  e == RemSize(t, k, s)
  IN  [m \in 1..(Rows(sh) * e) |-> LET z == m - 1 IN (z \div e) * t + (t - e) + (z % e)]

\* operational: as the implementation works on one series. Trim to a whole
\* number of strides, then im2col: column j collects samples j, j+s, j+2s...
\* (dilation s, kernel = number of windows), transposed at the end.
OpTrim(t, k, s) == t - RemSize(t, k, s)
OpColumn(t, k, s, j) == [w \in 1..NumWindows(t, k, s) |-> j + (w - 1) * s]
OpColumns(t, k, s) == OpTrim(t, k, s) - (NumWindows(t, k, s) - 1) * s

\* --------------------------------------------------------------- slicing
\* supported combinations of data and index ranks
SliceOk(sh, ish) ==
  \/ Len(sh) = 1 /\ Len(ish) = 1
  \/ Len(sh) = 2 /\ Len(ish) = 1
  \/ Len(sh) = 2 /\ Len(ish) = 2 /\ ish[2] = sh[1]
  \/ Len(sh) = 3 /\ Len(ish) = 1 /\ ish[1] = sh[1]

SliceShape(sh, ish, k) ==
  IF Len(sh) = 1 THEN <<ish[1], k>>
  ELSE IF Len(sh) = 2 THEN <<ish[1], sh[1], k>>
  ELSE <<sh[1], sh[2], k>>

\* identity of sample j of channel c of element b
SliceId(sh, ish, idx, b, c, j) ==
  LET T == LastE(sh) IN
  IF Len(sh) = 1 THEN idx[b + 1] + j
  ELSE IF Len(sh) = 2 /\ Len(ish) = 1 THEN c * T + idx[b + 1] + j
  ELSE IF Len(sh) = 2 THEN c * T + idx[b * ish[2] + c + 1] + j
  ELSE (b * sh[2] + c) * T + idx[b + 1] + j

Chans(sh) == IF Len(sh) = 1 THEN 1 ELSE sh[Len(sh) - 1]

SliceData(sh, ish, idx, k) ==
  LET C == Chans(sh)  B == ish[1]
  IN  [m \in 1..(B * C * k) |->
         LET z == m - 1 IN SliceId(sh, ish, idx, z \div (C * k), (z \div k) % C, z % k)]

\* -------------------------------------------------------------- sampling
\* off = <<>> (no constraint) or <<d>>: maximum centre offset
Centre(T) == T \div 2
Lo(T, k, off) == IF off = <<>> THEN 0
                 ELSE Centre(T) - off[1] - k
\* Hi is exclusive in the implementation; starting exactly at Hi would also
\* satisfy the documented bounds, so the specification admits it.
Hi(T, k, off) == IF off = <<>> THEN T - k
                 ELSE IF off[1] >= 0 THEN Centre(T)
                 ELSE Centre(T) + off[1]

\* what the documentation promises about a start position
StartOk(T, k, off, i) ==
  /\ i >= 0 /\ i + k <= T
  /\ off # <<>> =>
       IF off[1] >= 0 THEN /\ i + k >= Centre(T) - off[1]     \* right edge
                           /\ i <= Centre(T)                  \* left edge
       ELSE /\ Centre(T) - i >= -off[1]
            /\ i + k - Centre(T) >= -off[1]

SampleRefused(sh, k, n, off) ==   \* n = 0: not given
  \/ LastE(sh) < k
  \/ Len(sh) > 3
  \/ Len(sh) < 3 /\ n = 0
  \/ Len(sh) = 3 /\ n # 0 /\ n # sh[1]
  \/ Len(sh) > 1 /\ off # <<>> /\ off[1] < 0 /\ Hi(LastE(sh), k, off) <= Lo(LastE(sh), k, off)
  \/ Len(sh) > 1 /\ off # <<>> /\ Lo(LastE(sh), k, off) < 0

\* degenerate requests whose treatment is not documented (no start position
\* strictly below Hi): the code may refuse them or return the boundary kernel
SampleDegenerate(sh, k, off) ==
  LET o == IF Len(sh) = 1 THEN <<>> ELSE off
  IN Hi(LastE(sh), k, o) <= Lo(LastE(sh), k, o)
=============================================================================
