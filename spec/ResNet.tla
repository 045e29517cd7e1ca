------------------------------- MODULE ResNet -------------------------------
(* A residual network as the machine that is built and run block by block.   *)
(* A configuration [bottleneck, layers, kernel, groups, width, strides, n]   *)
(* (n: the sizes of the spatial axes) drives a state [axes, inp, dil, norms, *)
(* err]: each axis is [n, s], its length and the set of positions that the   *)
(* impulse fed in has reached; norms lists [c, axes] of every normalisation  *)
(* the data pass, which is what an injected normalisation layer sees.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Half(n) == (n + 1) \div 2
OutLen(n, st) == IF st = 2 THEN Half(n) ELSE n
(* an odd kernel k with stride st, dilation d, padded to be centred *)
Reach(a, k, st, d) ==
  [n |-> OutLen(a.n, st),
   s |-> {o \in 0..(OutLen(a.n, st) - 1) : \E i \in 0..(k - 1) : (o * st - d * (k \div 2) + d * i) \in a.s}]
Conv(axes, k, st, d) == TLCEval([j \in 1..Len(axes) |-> Reach(axes[j], k, st, d)])
Union2(x, y) == TLCEval([j \in 1..Len(x) |-> [n |-> x[j].n, s |-> x[j].s \cup y[j].s]])
Expansion(cfg) == IF cfg.bottleneck THEN 4 ELSE 1
Planes(i) == 64 * 2^(i - 1)
Start(cfg) == [axes |-> [j \in 1..Len(cfg.n) |-> [n |-> cfg.n[j], s |-> {cfg.at[j]}]], inp |-> 64, dil |-> 1, norms |-> <<>>, err |-> {}]
Stem(st) ==
  LET a == Conv(st.axes, 7, 2, 1) IN
  [st EXCEPT !.norms = <<[c |-> 64, axes |-> a]>>, !.axes = Conv(a, 3, 2, 1)]
(* one block of planes p whose middle convolution has stride sd, dilation d *)
Block(cfg, st, p, sd, d) ==
  LET out == p * Expansion(cfg)
      short == sd # 1 \/ st.inp # out
      errs == (IF cfg.kernel % 2 = 0 THEN {"ValueError"} ELSE {})
        \cup (IF ~cfg.bottleneck /\ (cfg.groups # 1 \/ cfg.width # 64) THEN {"ValueError"} ELSE {})
        \cup (IF ~cfg.bottleneck /\ d > 1 THEN {"NotImplementedError"} ELSE {})
      w == ((p * cfg.width) \div 64) * cfg.groups
      x == st.axes
      a == IF cfg.bottleneck THEN Conv(x, cfg.kernel, 1, 1) ELSE Conv(x, cfg.kernel, sd, 1)
      b == IF cfg.bottleneck THEN Conv(a, cfg.kernel, sd, d) ELSE Conv(a, cfg.kernel, 1, 1)
      s == IF short THEN Conv(x, 1, sd, 1) ELSE x
      branch == IF cfg.bottleneck
                THEN <<[c |-> w, axes |-> a], [c |-> w, axes |-> b], [c |-> out, axes |-> b]>>
                ELSE <<[c |-> p, axes |-> a], [c |-> p, axes |-> b]>>
  IN IF st.err \cup errs # {} THEN [st EXCEPT !.err = @ \cup errs, !.inp = out]
     ELSE [st EXCEPT !.inp = out, !.axes = Union2(b, s),
             !.norms = @ \o branch \o (IF short THEN <<[c |-> out, axes |-> s]>> ELSE <<>>)]
(* the j-th block of stage i: a strided stage halves every axis in its first *)
(* block; a dilated stage keeps them and doubles the dilation of everything  *)
(* after its own first block                                                 *)
Strided(cfg, i) == i > 1 /\ cfg.strides[i - 1] = "stride"
StepBlock(cfg, st, i, j) ==
  IF j > 1 THEN Block(cfg, st, Planes(i), 1, st.dil)
  ELSE LET b == Block(cfg, st, Planes(i), IF Strided(cfg, i) THEN 2 ELSE 1, st.dil)
       IN IF i > 1 /\ cfg.strides[i - 1] = "dilation" THEN [b EXCEPT !.dil = 2 * @] ELSE b
Refused(cfg) ==
  IF Len(cfg.strides) # Len(cfg.layers) - 1 \/ \E i \in DOMAIN cfg.strides : cfg.strides[i] \notin {"stride", "dilation"}
  THEN {"ValueError"} ELSE {}
Positions(cfg) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..cfg.layers[i] |-> <<i, j>>], <<>>, [i \in 1..Len(cfg.layers) |-> i])
Whole(cfg) == FoldLeft(LAMBDA st, ij : TLCEval(StepBlock(cfg, st, ij[1], ij[2])), Stem(Start(cfg)), Positions(cfg))
(* every error the configuration deserves; empty: it must be accepted.  A    *)
(* malformed stride list cannot be built any further                         *)
Errors(cfg) == IF Refused(cfg) # {} THEN Refused(cfg) \cup {"NotImplementedError"} ELSE Whole(cfg).err
Features(cfg) == Planes(Len(cfg.layers)) * Expansion(cfg)
=============================================================================
