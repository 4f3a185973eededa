------------------------------- MODULE Kernel -------------------------------
(* Continuous actions.  A round is [b, e, r, ps, q]: logged action, action of *)
(* the (deterministic) evaluation policy, reward, logging density, reward     *)
(* model at the evaluation action.                                            *)
EXTENDS Num, Integers, Sequences
Kernels == {"triangular", "epanechnikov", "cosine", "gaussian"}
K(kn, u) ==
  CASE kn = "triangular"   -> RMax(0, RSub(1, RAbs(u)))
    [] kn = "epanechnikov" -> RMax(0, RMul("3/4", RSub(1, RSq(u))))
    [] kn = "cosine"       -> IF RLe(1, RAbs(u)) THEN "0" ELSE RMul(RDiv(RPi, 4), RCos(RDiv(RMul(u, RPi), 2)))
    [] kn = "gaussian"     -> RDiv(RExp(RDiv(RNeg(RSq(u)), 2)), RSqrt(RMul(2, RPi)))
Dist(rd, h) == RDiv(RSub(rd.e, rd.b), h)
KW(kn, h, rd) == RDiv(K(kn, Dist(rd, h)), RMul(h, rd.ps))
KMean(s) == RDiv(RSum(s), Len(s))
KMeanW(kn, h, log) == KMean([i \in 1 .. Len(log) |-> RTrim(KW(kn, h, log[i]))])
KContrib(est, kn, h, log) ==
  CASE est = "kernelized_ipw" -> [i \in 1 .. Len(log) |-> RTrim(RMul(KW(kn, h, log[i]), log[i].r))]
    [] est = "kernelized_snipw" -> LET m == KMeanW(kn, h, log) IN [i \in 1 .. Len(log) |-> RTrim(RDiv(RMul(KW(kn, h, log[i]), log[i].r), m))]
    [] est = "kernelized_dr" -> [i \in 1 .. Len(log) |-> RTrim(RAdd(log[i].q, RMul(KW(kn, h, log[i]), RSub(log[i].r, log[i].q))))]
KDefined(est, kn, h, log) == est # "kernelized_snipw" \/ RLe("1/1000000", KMeanW(kn, h, log))
KValue(est, kn, h, log) == KMean(KContrib(est, kn, h, log))
KEstimators == {"kernelized_ipw", "kernelized_snipw", "kernelized_dr"}
=============================================================================
