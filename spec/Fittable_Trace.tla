--------------------------- MODULE Fittable_Trace ---------------------------
(* Every event carries the digests of all instances' parameters after the    *)
(* operation; apply events the output for a fixed probe. Memo: the output    *)
(* and digest seen for each parameter set (parameters determine both).       *)
EXTENDS Fittable, TraceKit
VARIABLES outs, digs, dig, l, bad   \* memo of outputs, memo of digests, digests
tvars == <<vars, outs, digs, dig, l, bad>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Verdict(name) == bad' = Report(bad, l, name)
\* clause for digests: only instance `changed` may differ from before
Others(changed) == IF \E i \in Inst : i \notin changed /\ Ev.dig[i] # dig[i] THEN "another instance's parameters changed" ELSE ""
\* digest clause for an instance now holding parameters p
Determined(i, p) ==
  IF p = Mixed THEN ""
  ELSE IF p \in DOMAIN digs /\ digs[p] # Ev.dig[i] THEN "parameters are not those fitted or loaded"
  ELSE IF p \notin DOMAIN digs /\ \E x \in DOMAIN digs : digs[x] = Ev.dig[i] THEN "parameters were not replaced"
  ELSE ""
Learn(i, p) == digs' = IF p = Mixed \/ p \in DOMAIN digs THEN digs ELSE digs @@ (p :> Ev.dig[i])
First(a, b) == IF a # "" THEN a ELSE b
Keep == UNCHANGED outs
Done == dig' = Ev.dig

TStart == /\ Is("start")
          /\ built' = [i \in Inst |-> FALSE] /\ par' = [i \in Inst |-> None] /\ slot' = [s \in Slots |-> None]
          /\ outs' = [x \in {} |-> <<>>] /\ digs' = (None :> Ev.dig[1]) /\ Done
          /\ Verdict(IF \E i \in Inst : Ev.dig[i] # Ev.dig[1] THEN "fresh instances differ" ELSE "")
TConstruct == Is("construct") /\ Construct(Ev.i) /\ Keep /\ Done /\ UNCHANGED digs
              /\ Verdict(First(Others({Ev.i}), Determined(Ev.i, None)))
TFit == Is("fit") /\ Keep /\ Done /\
  IF Ev.err # "" THEN FitFails(Ev.i) /\ UNCHANGED digs /\ Verdict("fit raised")
  ELSE Fit(Ev.i, Ev.a) /\ Learn(Ev.i, Ev.a) /\ Verdict(First(Others({Ev.i}), Determined(Ev.i, Ev.a)))
TFitFails == Is("fitfails") /\ FitFails(Ev.i) /\ Keep /\ Done /\ UNCHANGED digs
             /\ Verdict(IF Ev.err = "" THEN "unsuitable data accepted" ELSE Others({Ev.i}))
TSave == Is("save") /\ Save(Ev.i, Ev.a) /\ Keep /\ Done /\ UNCHANGED digs
         /\ Verdict(IF Ev.err # "" THEN "saving raised" ELSE Others({}))
TLoad == Is("load") /\ Keep /\ Done /\
  IF Ev.err # "" THEN LoadFails(Ev.i) /\ UNCHANGED digs /\ Verdict("complete load raised")
  ELSE Load(Ev.i, Ev.a) /\ Learn(Ev.i, slot[Ev.a]) /\ Verdict(First(Others({Ev.i}), Determined(Ev.i, slot[Ev.a])))
TLoadFails == Is("loadfails") /\ LoadFails(Ev.i) /\ Keep /\ Done /\ UNCHANGED digs
              /\ Verdict(IF Ev.strict /\ Ev.err = "" THEN "unsuitable parameters accepted" ELSE Others({Ev.i}))
TCopy == Is("copy") /\ Copy(Ev.i, Ev.a) /\ Keep /\ Done /\ UNCHANGED digs
         /\ Verdict(IF Ev.err # "" THEN "copying raised" ELSE First(Others({Ev.a}), Determined(Ev.a, par[Ev.i])))
TApply == Is("apply") /\ Apply(Ev.i) /\ Done /\ UNCHANGED digs /\
  LET p == par[Ev.i]  learn == built[Ev.i] /\ Ev.err = "" /\ p # Mixed /\ p \notin DOMAIN outs IN
  /\ outs' = IF learn THEN outs @@ (p :> Ev.out) ELSE outs
  /\ Verdict(
       IF ~Usable(Ev.i) THEN IF Ev.err = "" THEN "usable without having been fitted" ELSE Others({})
       ELSE IF Ev.err # "" THEN IF p = None THEN Others({}) ELSE "fitted transform refuses to be applied"
       ELSE IF Ev.repeated THEN "applying twice differs"
       ELSE IF p # Mixed /\ p \in DOMAIN outs /\ outs[p] # Ev.out THEN "same parameters, different output"
       ELSE IF learn /\ p # None /\ \E x \in DOMAIN outs : outs[x] = Ev.out THEN "different parameters, same output"
       ELSE Others({}))
TCrash == Is("crash") /\ UNCHANGED <<vars, outs, digs, dig>> /\ Verdict("unexpected exception")
TFinish == /\ l = Len(Trace) + 1 /\ l' = l + 1 /\ PrintVerdict(bad) /\ UNCHANGED <<vars, outs, digs, dig, bad>>
TInit == Init0 /\ outs = <<>> /\ digs = <<>> /\ dig = <<>> /\ l = 1 /\ bad = <<>>
TSpec == TInit /\ [][TStart \/ TConstruct \/ TFit \/ TFitFails \/ TSave \/ TLoad \/ TLoadFails \/ TCopy \/ TApply
                     \/ TCrash \/ TFinish]_tvars
=============================================================================
