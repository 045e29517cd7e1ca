------------------------------ MODULE ResNet_MC ------------------------------
EXTENDS ResNet, CSV, IOUtils, Json
VARIABLES cfg, st, i, j, pc
vars == <<cfg, st, i, j, pc>>
Thorough == IOEnv.TIER = "thorough"
Layers == {<<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<2, 2, 2>>, <<1, 2, 1, 1>>, <<1, 1, 1, 1>>}
          \cup (IF Thorough THEN {<<3>>, <<2, 3, 1>>, <<2, 2, 2, 2>>, <<1, 1, 2, 1>>, <<1, 1, 1, 2>>} ELSE {})
Types == {"stride", "dilation"}
Words(n) == UNION {[1..n -> Types], IF n > 0 THEN {[k \in 1..n |-> "stride"], [k \in 1..n |-> IF k = n THEN "pool" ELSE "stride"], [k \in 1..(n-1) |-> "stride"]} ELSE {<<"stride">>}}
Kernels == {1, 2, 3, 5, 7}
Sizes == {<<16>>, <<97>>, <<160>>, <<61, 40>>, <<96, 9>>}
Init == /\ cfg \in [bottleneck : BOOLEAN, layers : Layers]
        /\ st = <<>> /\ i = 0 /\ j = 0 /\ pc = "choose"
Choose == /\ pc = "choose" /\ pc' = "stem" /\ UNCHANGED <<st, i, j>>
          /\ \E w \in Words(Len(cfg.layers) - 1), k \in Kernels, gw \in {<<1, 64>>, <<2, 64>>, <<1, 32>>, <<4, 16>>, <<2, 128>>}, n \in Sizes, q \in {0, 1, 2} :
             /\ (k # 3 => gw = <<1, 64>>) /\ (gw # <<1, 64>> => q = 1)
             /\ cfg' = cfg @@ [strides |-> w, kernel |-> k, groups |-> gw[1], width |-> gw[2], n |-> n,
                               at |-> [a \in 1..Len(n) |-> (q * (n[a] - 1)) \div 2]]
DoStem == /\ pc = "stem" /\ UNCHANGED cfg
          /\ IF Refused(cfg) # {} THEN pc' = "done" /\ st' = Start(cfg) /\ i' = 0 /\ j' = 0
             ELSE pc' = "build" /\ st' = Stem(Start(cfg)) /\ i' = 1 /\ j' = 1
Build == /\ pc = "build" /\ UNCHANGED cfg
         /\ st' = StepBlock(cfg, st, i, j)
         /\ IF j < cfg.layers[i] THEN i' = i /\ j' = j + 1 /\ pc' = pc
            ELSE IF i < Len(cfg.layers) THEN i' = i + 1 /\ j' = 1 /\ pc' = pc
            ELSE i' = i /\ j' = j /\ pc' = "done"
Next == Choose \/ DoStem \/ Build
Spec == Init /\ [][Next]_vars
Built == pc = "done" /\ Refused(cfg) = {}
(* ------------------------------------------------------------ properties *)
Agrees == Built => st = Whole(cfg)
(* lengths: the stem divides by four, every strided stage by two, rounding up *)
Halvings == Cardinality({s \in 1..Len(cfg.strides) : cfg.strides[s] = "stride"})
RECURSIVE HalfN(_, _)
HalfN(n, k) == IF k = 0 THEN n ELSE HalfN(Half(n), k - 1)
Lengths == (Built /\ st.err = {}) => /\ \A a \in 1..Len(cfg.n) : st.axes[a].n = HalfN(cfg.n[a], 2 + Halvings)
                                    /\ st.inp = Features(cfg)
DilationKeeps == [][(pc = "build" /\ st.err = {} /\ st'.err = {} /\ ~(j = 1 /\ Strided(cfg, i)))
                    => \A a \in 1..Len(cfg.n) : st'.axes[a].n = st.axes[a].n]_vars
(* the shortcut keeps everything the impulse had reached (strided: at even positions) *)
ShortcutKeeps == [][(pc = "build" /\ st.err = {} /\ st'.err = {} /\ ~(j = 1 /\ Strided(cfg, i)))
                    => \A a \in 1..Len(cfg.n) : st.axes[a].s \subseteq st'.axes[a].s]_vars
(* ordinary blocks refuse exactly what they do not support *)
Refusal == Built => (st.err = {} <=> /\ cfg.kernel % 2 = 1
                                     /\ cfg.bottleneck \/ (cfg.groups = 1 /\ cfg.width = 64)
                                     /\ cfg.bottleneck \/ \A s \in 1..Len(cfg.strides) : cfg.strides[s] = "dilation" =>
                                            (s = Len(cfg.strides) /\ cfg.layers[s + 1] = 1))
Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, ok |-> Errors(cfg) = {}, depth |-> Len(cfg.layers)])>>, IOEnv.STIM)
=============================================================================
