----------------------------- MODULE Chunked_MC -----------------------------
EXTENDS Chunked, Json, CSV, IOUtils, TLC
VARIABLES hist     \* shapes pulled
Thorough == IOEnv.TIER = "thorough"
MaxChunks == IF Thorough THEN 4 ELSE 3
Shapes == {<<1, 1, 3>>, <<2, 1, 4>>, <<1, 2, 5>>, <<3, 2, 3>>, <<2, 3, 6>>} \cup
          (IF Thorough THEN {<<1, 1, 2>>, <<4, 1, 7>>} ELSE {})
Init == /\ cfg \in [k : {2, 3}, b : 1..2, bpc : 1..3, coin : BOOLEAN]
        /\ cur = <<>> /\ q = 0 /\ served = 0 /\ total = 0 /\ phase = "run" /\ hist = <<>>
Next ==
  \/ CanPull /\ Len(hist) < MaxChunks /\ \E sh \in Shapes : Pull(sh) /\ hist' = Append(hist, sh)
  \/ CanServe /\ Serve /\ UNCHANGED hist
  \/ CanEnd /\ End /\ UNCHANGED hist
  \/ phase = "run" /\ TooShort /\ Fail /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<vars, hist>> /\ WF_<<vars, hist>>(Next)
Finishes == <>(phase # "run")
Emit == (phase # "run") => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, shapes |-> hist])>>, IOEnv.STIM)
=============================================================================
