------------------------------ MODULE CheckC06 ------------------------------
(* Record: calls, each [log, est, lams, method, ub, delta, eps, best, res,    *)
(* err, touched]; best is the 1-based index of the candidate reported.        *)
EXTENDS JudgeBase, Tuning
LogOf(o, c) == LET l == o.logs[c.log] IN IF c.eps THEN [i \in 1 .. Len(l) |-> [l[i] EXCEPT !.ps = l[i].eps]] ELSE l
SelVerdict(c, log) ==
  LET n == Len(c.lams) IN
  IF c.method = "mse" THEN
     LET sc == RSeq([i \in 1 .. n |-> MseScore(c.est, c.lams[i], log, c.ub, c.delta)]) IN
     IF MseMay(sc, c.best, Tol) THEN "ok" ELSE c.est \o ": selected candidate " \o RStr(c.lams[c.best]) \o " does not minimise the estimated MSE"
  ELSE
     LET t == RSeq([i \in 1 .. n |-> Candidate(c.est, c.lams[i], log, c.delta)])
         tol == RMul(Tol, RAdd(1, MaxOf([i \in 1 .. n |-> RMax(RAbs(t[i].theta), t[i].w)])))
     IN IF SlopeMay(t, c.best, tol) THEN "ok" ELSE c.est \o ": candidate " \o RStr(c.lams[c.best]) \o " is not the one SLOPE selects"
CallVerdict(o, c) ==
  LET log == RSeq(LogOf(o, c)) IN
  IF c.err # "" THEN c.est \o " with " \o c.method \o " tuning raised on a valid log: " \o c.err
  ELSE IF c.touched THEN c.est \o ": the list of candidates was modified"
  ELSE IF c.best \notin 1 .. Len(c.lams) THEN c.est \o ": selected hyperparameter is not a candidate"
  ELSE LET cs == Trimmed(Contrib(c.est, c.lams[c.best], log))
           tol == RMul("1/100000000", RAdd(1, AbsMean(cs)))
       IN IF ~RFin(c.res) THEN c.est \o ": value is not finite"
          ELSE IF ~RNear(c.res, Mean(cs), tol) THEN c.est \o ": value is not the base estimator's at " \o RStr(c.lams[c.best]) \o ": got " \o RStr(c.res) \o " expected " \o RStr(Mean(cs))
          ELSE SelVerdict(c, log)
Verdict(o) == FirstBad([k \in 1 .. Len(o.calls) |-> CallVerdict(o, o.calls[k])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
