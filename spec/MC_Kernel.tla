----------------------------- MODULE MC_Kernel -----------------------------
EXTENDS Kernel, TLC, Json, IOUtils, FiniteSets, SequencesExt
CONSTANTS MaxLen, Big
VARIABLE log
Rounds == {[b |-> b, e |-> e, r |-> r, ps |-> ps, q |-> qq] : b \in {"0", "1"}, e \in (IF Big THEN {"0", "1/2", "2", "-1"} ELSE {"0", "1/2", "2"}),
  r \in {"0", "2", "-1"}, ps \in {"1/2", "2"}, qq \in (IF Big THEN {"0", "1"} ELSE {"1"})}
Init == log = <<>>
Next == Len(log) < MaxLen /\ \E rd \in Rounds : log' = Append(log, rd)
NE == log # <<>>
Hs == {"1", "1/2", "4"}
D(e, kn, h) == KDefined(e, kn, h, log)
V(e, kn, h) == KValue(e, kn, h, log)
Compact == {"triangular", "epanechnikov", "cosine"}
Symmetric == \A kn \in Kernels, u \in {"0", "1/2", "3/4", "1", "2"} : REq(K(kn, u), K(kn, RNeg(u))) /\ RLe(0, K(kn, u)) /\ RLe(K(kn, u), K(kn, 0))
Support == \A kn \in Compact : REq(K(kn, 1), 0) /\ REq(K(kn, "3/2"), 0) /\ RLt(0, K(kn, "1/2"))
(* trapezoid rule over [-8,8] in steps of 1/16: the kernels are densities *)
Density == \A kn \in Kernels : RNear(RDiv(RSum([i \in 1 .. 257 |-> RTrim(K(kn, RDiv(i - 129, 16)))]), 16), 1, "1/300")
ShiftInvariant == NE => \A e \in KEstimators, kn \in Kernels : D(e, kn, "1") =>
   RNear(KValue(e, kn, "1", [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.b = RAdd(@, 5), !.e = RAdd(@, 5)]]), V(e, kn, "1"), "1/1000000000000")
PermutationInvariant == NE => \A e \in KEstimators, kn \in Compact : D(e, kn, "4") => RNear(KValue(e, kn, "4", Reverse(log)), V(e, kn, "4"), "1/1000000000000")
OutsideIgnored == NE => \A kn \in Compact, h \in Hs : (\A i \in 1 .. Len(log) : RLe(h, RAbs(RSub(log[i].e, log[i].b)))) =>
   REq(V("kernelized_ipw", kn, h), 0) /\ REq(V("kernelized_dr", kn, h), KMean([i \in 1 .. Len(log) |-> log[i].q]))
ZeroModelIsIpw == NE => LET z == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.q = "0"]] IN \A kn \in Kernels, h \in Hs : REq(KValue("kernelized_dr", kn, h, z), V("kernelized_ipw", kn, h))
PerfectModelIsDm == NE => LET z == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.q = log[i].r]] IN \A kn \in Kernels, h \in Hs : RNear(KValue("kernelized_dr", kn, h, z), KMean([i \in 1 .. Len(log) |-> log[i].r]), "1/1000000000000")
RMn == FoldLeft(LAMBDA x, rd : RMin(x, rd.r), "inf", log)
RMx == FoldLeft(LAMBDA x, rd : RMax(x, rd.r), "-inf", log)
SelfNormalisedInRange == NE => \A kn \in Kernels, h \in Hs : D("kernelized_snipw", kn, h) =>
   RLe(RSub(RMn, "1/1000000000000"), V("kernelized_snipw", kn, h)) /\ RLe(V("kernelized_snipw", kn, h), RAdd(RMx, "1/1000000000000"))
ScaleFree == NE => LET z == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.ps = RMul(@, 3)]] IN \A kn \in Kernels : D("kernelized_snipw", kn, "1") =>
   RNear(KValue("kernelized_snipw", kn, "1", z), V("kernelized_snipw", kn, "1"), "1/1000000000000")
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == NE => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
