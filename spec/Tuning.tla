------------------------------- MODULE Tuning -------------------------------
(* Estimators with built-in hyperparameter tuning.  A tuned estimator chooses *)
(* one candidate of its list by an estimated-MSE criterion or by the SLOPE++  *)
(* rule and returns the value of its base estimator at that candidate.        *)
EXTENDS OpeLog, FiniteSets, SequencesExt
TunedEstimators == {"ipw", "dr", "switch-dr", "dr-os", "sg-ipw", "sg-dr"}
WHat(est, lam, w) == CASE est \in {"ipw", "dr"} -> Clip(w, lam)
                       [] est = "switch-dr" -> Switch(w, lam)
                       [] est = "dr-os" -> Shrink(w, lam)
                       [] est \in {"sg-ipw", "sg-dr"} -> SubG(w, lam)
ModelFree(est) == est \in {"ipw", "sg-ipw"}
Variance(s) == LET m == Mean(s) IN RTrim(Mean([i \in 1 .. Len(s) |-> RSq(RSub(s[i], m))]))
Trimmed(s) == RSeq([i \in 1 .. Len(s) |-> RTrim(s[i])])
MaxOf(s) == FoldLeft(LAMBDA x, y : RMax(x, y), "-inf", s)
-----------------------------------------------------------------------------
(* estimated MSE: variance of the mean plus squared (upper bound of the) bias *)
Bias(est, lam, log) == RAbs(Mean([i \in 1 .. Len(log) |->
   RTrim(RMul(RSub(W(log[i]), WHat(est, lam, W(log[i]))), IF ModelFree(est) THEN log[i].r ELSE Resid(log[i])))]))
BiasSlack(log, delta) ==
   LET n == Len(log)
       w == Trimmed(Map(W, log))
       ld == RLog(RDiv(2, delta))
   IN RAdd(RSqrt(RTrim(RDiv(RMul(RMul(2, Mean([i \in 1 .. n |-> RSq(w[i])])), ld), n))), RDiv(RMul(RMul(2, MaxOf(w)), ld), 3 * n))
BiasTerm(est, lam, log, ub, delta) == IF ub THEN RAdd(Bias(est, lam, log), BiasSlack(log, delta)) ELSE Bias(est, lam, log)
MseScore(est, lam, log, ub, delta) ==
   RAdd(RDiv(Variance(Trimmed(Contrib(est, lam, log))), Len(log)), RSq(RTrim(BiasTerm(est, lam, log, ub, delta))))
-----------------------------------------------------------------------------
(* SLOPE++: candidates are visited from the widest interval to the narrowest; *)
(* the last one whose interval is compatible with all earlier ones is chosen  *)
(* (scanning stops at the first incompatible one).                            *)
SlopeC == RSub(RSqrt(6), 1)
Width(contrib, delta) == RMul(RSqrt(RDiv(Variance(contrib), Len(contrib) - 1)), RTQuantile(RSub(1, delta), Len(contrib) - 1))
Reach(later, earlier) == RAdd(later.w, RMul(SlopeC, earlier.w))
Compat(later, earlier) == RLe(RAbs(RSub(later.theta, earlier.theta)), Reach(later, earlier))
PrefixOk(t, k) == \A i \in 2 .. k : \A j \in 1 .. i - 1 : Compat(t[i], t[j])
\* t: sequence of [theta, w] in order of non-increasing w
SlopeIndex(t) == CHOOSE k \in 1 .. Len(t) : PrefixOk(t, k) /\ (k = Len(t) \/ ~PrefixOk(t, k + 1))
Candidate(est, lam, log, delta) == LET c == Trimmed(Contrib(est, lam, log)) IN [theta |-> Mean(c), w |-> Width(c, delta), lam |-> lam]
(* which candidates a correct scan can return when widths and overlaps are   *)
(* only known up to tol (t in any order, s an index)                         *)
SlopeMay(t, s, tol) ==
   LET Wider(i) == RLt(RAdd(t[s].w, tol), t[i].w)
       Tied(i) == i # s /\ RLe(RAbs(RSub(t[i].w, t[s].w)), tol)
       Below == {i \in 1 .. Len(t) : i # s /\ ~Wider(i) /\ ~Tied(i)}
       Early == {i \in 1 .. Len(t) : Wider(i)}
       Ties == {i \in 1 .. Len(t) : Tied(i)}
       May(i, j) == RLe(RSub(RAbs(RSub(t[i].theta, t[j].theta)), tol), Reach(t[i], t[j]))
       MayNot(i, j) == RLt(Reach(t[i], t[j]), RAdd(RAbs(RSub(t[i].theta, t[j].theta)), tol))
       Acc == Early \cup {s}
       NextBelow == {i \in Below : \A k \in Below : RLe(t[k].w, RAdd(t[i].w, tol))}
   IN /\ \A i \in Acc, j \in Early : (i # j /\ RLe(t[i].w, t[j].w)) => May(i, j)
      /\ \/ Below = {}
         \/ \E i \in NextBelow \cup Ties, j \in Acc \cup Ties : i # j /\ MayNot(i, j)
MseMay(scores, s, tol) == \A i \in 1 .. Len(scores) : RLe(scores[s], RAdd(scores[i], RMul(tol, RAdd(1, RAbs(scores[i])))))
=============================================================================
