------------------------------ MODULE CheckC01 ------------------------------
(* Judge: value returned by the real estimator = Value(est, lambda, log).     *)
(* Record: log (sequence of rounds), calls (sequence of [est, lam, res, err]) *)
EXTENDS JudgeBase, OpeLog
CallVerdict(log, c) ==
  LET cs == Contrib(c.est, c.lam, log)
      v == Mean(cs)
      tol == RMul(Tol, RAdd(1, AbsMean(cs)))
  IN IF ~Defined(c.est, c.lam, log) THEN "ok"
     ELSE IF c.err # "" THEN c.est \o " raised on a valid log: " \o c.err
     ELSE IF ~RFin(c.res) THEN c.est \o " is not finite (lambda=" \o c.lam \o "), expected " \o RStr(v)
     ELSE IF RNear(c.res, v, tol) THEN "ok"
     ELSE c.est \o " value: got " \o RStr(c.res) \o " expected " \o RStr(v) \o " (lambda=" \o RStr(c.lam) \o ")"
LogOf(o, c) == IF c.eps THEN [i \in 1 .. Len(o.log) |-> [o.log[i] EXCEPT !.ps = o.log[i].eps]] ELSE o.log
Verdict(o) == FirstBad([k \in 1 .. Len(o.calls) |-> CallVerdict(LogOf(o, o.calls[k]), o.calls[k])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
