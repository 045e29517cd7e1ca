--------------------------- MODULE Distribution_MC ---------------------------
(* Walks every law from one end of its range to the other, adding up the     *)
(* area under the density as it goes: at each point the area must be the     *)
(* probability up to there (so the density integrates to one), which grows.  *)
EXTENDS Distribution, Json, CSV, IOUtils
VARIABLES w, p, area, pc, tab
vars == <<w, p, area, pc, tab>>
Thorough == IOEnv.TIER = "thorough"
Cos == {[fam |-> f, lo |-> a, hi |-> b] : f \in {"cos", "sin"}, a \in {-24, -20, -10, 0, 6}, b \in {-14, 0, 8, 16, 24}}
GoodCos == {IF v.fam = "sin" THEN [v EXCEPT !.lo = @ + 24, !.hi = @ + 24] ELSE v : v \in {u \in Cos : u.hi >= u.lo + 6}}
Pows == {[fam |-> "pow", ra |-> ra, rb |-> rb, i2 |-> i2, sq |-> sq] :
           ra \in {100, 200}, rb \in {0, 300, 600}, i2 \in {-8, -6, -4, -3, -1, 1, 2, 4, 6}, sq \in BOOLEAN}
GoodPow == {v \in Pows : /\ (v.i2 % 2 # 0 => v.sq) /\ (v.rb = 0 => v.i2 < -2)}
Zero == {[fam |-> "pow", ra |-> 0, rb |-> 400, i2 |-> i2, sq |-> i2 % 2 # 0] : i2 \in {-1, 1, 2, 4, 6}}
Roots == {v \in {[fam |-> "root", rb |-> rb, k |-> k, s |-> s] : rb \in {110, 150, 200}, k \in {3, 6, 10, 20}, s \in {-1, 1}} : v.rb > 110 => v.k <= 10}
Logs == {[fam |-> f, a |-> a, g |-> g, kk |-> kk] : f \in {"logu", "logp"}, a \in {1, 5, 20}, g \in {2, 3, 4}, kk \in {1, 2, 3, 5}}
Norms == {[fam |-> "norm", j |-> j, k |-> k] : j \in -2..3, k \in 1..3}
Deltas == {[fam |-> "delta", peak |-> q] : q \in {-7, 0, 1, 20, 4096}}
Type(t, a, b) == [fam |-> "vol", type |-> t, lo |-> a, hi |-> b, om |-> 300, h0 |-> 6766, rate |-> 0]
Ranges == {Type("redshift", 0, 5000), Type("redshift", 100, 1000), Type("redshift", 300, 301), Type("redshift", 500, 2500), Type("redshift", 1000, 1300), Type("redshift", 2000, 4999),
           Type("comoving_distance", 0, 3000), Type("comoving_distance", 300, 310), Type("comoving_distance", 100, 102), Type("comoving_distance", 1000, 2000), Type("comoving_distance", 500, 4500),
           Type("luminosity_distance", 0, 8000), Type("luminosity_distance", 2000, 2010), Type("luminosity_distance", 1000, 20000), Type("luminosity_distance", 5000, 9000)}
\* (with omega_m = 1 and h0 = 80 distances end at 4434 Mpc for a redshift of five)
Vols == {x \in {[v EXCEPT !.om = om, !.h0 = h, !.rate = k] : v \in Ranges, om \in {0, 300, 310, 1000}, h \in {5000, 6766, 8000}, k \in -2..2} : ~(x.hi = 4500 /\ x.om = 1000 /\ x.h0 = 8000)}
Families == {"cos", "pow", "root", "log", "norm", "delta", "vol"}
LawsOf(f) == CASE f = "cos" -> GoodCos [] f = "pow" -> GoodPow \cup Zero [] f = "root" -> Roots [] f = "log" -> Logs [] f = "norm" -> Norms [] f = "delta" -> Deltas
               [] f = "vol" -> IF Thorough THEN Vols ELSE {v \in Vols : v.h0 = 6766 \/ (v.rate = 0 /\ v.om = 300)}
(* ---------------------------------------------------------------- the walk *)
NPts == 60
U(v, k) == ToUnit(v, v.lo) + ((ToUnit(v, v.hi) - ToUnit(v, v.lo)) \div NPts) * k
Ends(v) == CASE v.fam \in {"cos", "sin"} -> <<v.lo, v.hi>> [] v.fam = "pow" -> <<v.ra, IF v.rb = 0 THEN 4 * v.ra ELSE v.rb>>
             [] v.fam = "root" -> <<100, v.rb>> [] v.fam = "vol" -> <<0, NPts>> [] OTHER -> <<0, 0>>
Walks(v) == v.fam \in {"cos", "sin", "pow", "root"} \/ (v.fam = "vol" /\ ToUnit(v, v.hi) - ToUnit(v, v.lo) > 1000 * NPts /\ ToUnit(v, v.hi) <= Dist(v, tab, Len(tab.dc2)))
CdfAt(k) == CASE w.fam \in {"cos", "sin"} -> CosCdf(w, k) [] w.fam = "pow" -> PowCdf(w, k) [] w.fam = "root" -> RootCdf(w, k)
              [] w.fam = "vol" -> VolCdf(w, tab, U(w, 0), U(w, NPts), U(w, k))
\* 10^6 times the area between k and k + 1, by the mean of the densities
Pdf0(k) == CASE w.fam \in {"cos", "sin"} -> CosPdf(w, k) [] w.fam = "pow" -> (IF k = 0 THEN 0 ELSE PowPdf(w, k)) [] w.fam = "root" -> RootPdf(w, k)
             [] w.fam = "vol" -> VolPdf(w, tab, U(w, 0), U(w, NPts), U(w, k))
Width(k) == CASE w.fam \in {"cos", "sin"} -> 1000000 \div (w.hi - w.lo)
              [] w.fam = "pow" -> 10 * (((X(w, k + 1) - X(w, k)) * 100000) \div Span(w))
              [] w.fam = "root" -> Digits(RPow(k + 1, w.k) - RPow(k, w.k), RPow(w.rb, w.k) - 10000, 6)
              [] w.fam = "vol" -> 1000000 \div NPts
Init == w = [fam |-> "none"] /\ p = 0 /\ area = 0 /\ pc = "family" /\ tab = <<>>
Family == pc = "family" /\ pc' = "law" /\ \E f \in Families : w' = [fam |-> f] /\ UNCHANGED <<p, area, tab>>
Law == /\ pc = "law" /\ pc' = "start" /\ UNCHANGED <<p, area>>
       /\ \E v \in LawsOf(w.fam) : w' = v /\ tab' = (IF v.fam = "vol" THEN Tables(v, ToUnit(v, v.hi)) ELSE <<>>)
Start == pc = "start" /\ Walks(w) /\ pc' = "walk" /\ p' = Ends(w)[1] /\ UNCHANGED <<w, area, tab>>
Walk == /\ pc = "walk" /\ p < Ends(w)[2] /\ p' = p + 1 /\ UNCHANGED <<w, pc, tab>>
        /\ area' = area + MulDiv(Pdf0(p) + Pdf0(p + 1), Width(p), 2000)
Next == Family \/ Law \/ Start \/ Walk
Spec == Init /\ [][Next]_vars
\* singular at zero: the first cells of an inverse square root do not count
Singular == w.fam = "pow" /\ w.ra = 0 /\ w.i2 < 0
AreaIsProbability == (pc = "walk" /\ ~Singular) => Near(area \div 100, CdfAt(p), 120)
Grows == [][(pc = "walk" /\ p' > p) => CdfAt(p') >= CdfAt(p)]_vars
WholeRange == (pc = "walk" /\ p = Ends(w)[2] /\ (w.fam = "pow" => w.rb # 0)) => Near(CdfAt(p), 10000, 3)
FromNothing == (pc = "walk" /\ p = Ends(w)[1]) => CdfAt(p) \in 0..3
\* without a rate the comoving distance is uniform in its own cube, whatever the cosmology
Cubes == (pc = "walk" /\ w.fam = "vol" /\ w.rate = 0 /\ w.type = "comoving_distance") =>
            Near(CdfAt(p), CubeCdf(U(w, 0) \div 100, U(w, NPts) \div 100, U(w, p) \div 100), 60)
Emit == pc = "start" => CSVWrite("%1$s", <<ToJson(w)>>, IOEnv.STIM)
=============================================================================
