------------------------------ MODULE Sampler_MC ------------------------------
(* All banks of up to four waveforms and histories of requests: whatever was *)
(* drawn before, rows of one draw belong together and the bank is as stored. *)
EXTENDS Sampler, Json, CSV, IOUtils
VARIABLES bank, hist, out
vars == <<bank, hist, out>>
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 4 ELSE 3
MaxN == IF Thorough THEN 4 ELSE 3
Bank(n) == [plus |-> [i \in 1..n |-> i], cross |-> [i \in 1..n |-> 10 + i], parameters |-> [i \in 1..n |-> 20 + i]]
Init == bank \in {Bank(n) : n \in 1..MaxN} /\ hist = <<>> /\ out = Drawn(bank, <<>>)
Idx(n) == IF n = -1 THEN {[i \in 1..Rows(bank) |-> i]} ELSE [1..n -> 1..Rows(bank)]
Next == Len(hist) < Depth /\ UNCHANGED bank /\ \E n \in -1..MaxN + 1 :
  /\ hist' = Append(hist, n)
  /\ IF Refused(bank, n) THEN UNCHANGED out
     ELSE \E idx \in Idx(n) : out' = Drawn(bank, idx)
Spec == Init /\ [][Next]_vars
Stored == bank = Bank(Rows(bank))
Together == Consistent(out) /\ \A i \in 1..Len(out.plus) : out.cross[i] = out.plus[i] + 10 /\ out.parameters[i] = out.plus[i] + 20
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([n |-> Rows(bank), h |-> hist])>>, IOEnv.STIM)
=============================================================================
