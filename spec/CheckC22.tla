------------------------------ MODULE CheckC22 ------------------------------
(* record: y (raw labels, numbers), nd, alpha, evsize (requested number of    *)
(* evaluation samples or fraction), ev (sample index of each evaluation row), *)
(* fits (training sets the classifiers received: idx, cls), pred, pib, act,   *)
(* rew, ps, K, n;  evals: sequence of [alpha, pred, tr, dist, value];         *)
(* dists: sequence of [dist, value] (arbitrary distributions)                 *)
EXTENDS JudgeBase, Multiclass
Row(o, k) == PolicyRow(o.alpha, o.pred[k], o.K)
RowOk(o, k) ==
  LET got == o.pib[k]
      dead == {a \in 0 .. o.K - 1 : REq(got[a + 1], 0)}
      want == DeficientRow(Row(o, k), dead) IN
  IF Cardinality(dead) # o.nd THEN "row " \o ToString(k) \o ": " \o ToString(Cardinality(dead)) \o " unsupported actions, expected " \o ToString(o.nd)
  ELSE IF \E a \in 1 .. o.K : ~RNear(got[a], want[a], Tol) THEN "row " \o ToString(k) \o ": behaviour policy is not alpha on the prediction plus uniform rest"
  ELSE IF o.act[k] \notin 0 .. o.K - 1 \/ o.act[k] \in dead THEN "row " \o ToString(k) \o ": logged action outside the support"
  ELSE IF ~RNear(o.ps[k], got[o.act[k] + 1], Tol) THEN "row " \o ToString(k) \o ": propensity is not the policy's probability of the logged action"
  ELSE IF ~REq(o.rew[k], RewardOf(o.y, o.ev[k], o.act[k])) THEN "row " \o ToString(k) \o ": reward is not the indicator of the true class"
  ELSE "ok"
ValOk(o, e) == IF RNear(e.value, TrueValue(o.y, o.ev, e.dist), Tol) THEN "ok"
  ELSE "ground-truth value " \o RStr(e.value) \o " is not the average probability of the true class " \o RStr(TrueValue(o.y, o.ev, e.dist))
EvalOk(o, e) ==
  IF e.err # "" THEN "evaluation policy raised: " \o e.err
  ELSE IF Len(e.dist) # Len(o.ev) THEN "evaluation policy does not have one row per evaluation sample"
  ELSE IF \E k \in 1 .. Len(o.ev) : Len(e.dist[k]) # o.K \/ \E a \in 1 .. o.K : ~RNear(e.dist[k][a], PolicyRow(e.alpha, e.pred[k], o.K)[a], Tol)
       THEN "evaluation policy is not alpha on the prediction plus uniform rest"
  ELSE ValOk(o, e)
SizeOk(o) == LET n == Len(o.y) IN
  IF o.frac THEN RLe(RAbs(RSub(o.n, RMul(o.evsize, n))), 1) ELSE REq(o.evsize, o.n)
ToSet1(s) == {s[i] : i \in 1 .. Len(s)}
FitOk(o, f) ==
  IF ToSet1(f.idx) \cap ToSet1(o.ev) # {} THEN "a classifier was trained on evaluation samples"
  ELSE IF ToSet1(f.idx) \cup ToSet1(o.ev) # 1 .. Len(o.y) \/ Len(f.idx) + Len(o.ev) # Len(o.y) THEN "training and evaluation samples do not partition the data"
  ELSE IF \E j \in 1 .. Len(f.idx) : f.cls[j] # ClassOf(o.y, f.idx[j]) THEN "a classifier was trained on wrong class labels"
  ELSE "ok"
(* frequency of each action over all rounds against the reported policy, 6 sigma *)
FreqOk(o) == FirstBad([a \in 1 .. o.K |->
   LET n == Len(o.act)
       m == RSum([k \in 1 .. n |-> o.pib[k][a]])
       v == RSum([k \in 1 .. n |-> RMul(o.pib[k][a], RSub(1, o.pib[k][a]))])
       c == Len(SelectSeq(o.act, LAMBDA x : x = a - 1))
   IN IF RLe(RSq(RSub(c, m)), RAdd(RMul(36, v), "9/10")) THEN "ok"
      ELSE "action " \o ToString(a - 1) \o " logged " \o ToString(c) \o " times, policy expects " \o RStr(m)])
Verdict(o) ==
  IF Has(o, "k") THEN FreqOk(o)
  ELSE IF o.err # "" THEN "reduction raised: " \o o.err
  ELSE IF o.K # NClasses(o.y) THEN "number of actions is not the number of classes"
  ELSE IF ~SizeOk(o) \/ o.n # Len(o.ev) THEN "evaluation part has the wrong size"
  ELSE IF Len(o.act) # o.n \/ Len(o.rew) # o.n \/ Len(o.ps) # o.n \/ Len(o.pib) # o.n THEN "log arrays have different lengths"
  ELSE FirstBad([i \in 1 .. Len(o.fits) |-> FitOk(o, o.fits[i])] \o [k \in 1 .. o.n |-> RowOk(o, k)]
        \o <<FreqOk(o)>> \o [i \in 1 .. Len(o.evals) |-> EvalOk(o, o.evals[i])] \o [i \in 1 .. Len(o.dists) |-> ValOk(o, o.dists[i])]
        \o <<IF o.same THEN "ok" ELSE "the same seed does not reproduce the same log">>)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
