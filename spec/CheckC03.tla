------------------------------ MODULE CheckC03 ------------------------------
(* Record: log (rounds of MultiLog), calls [est, lam, eps, res, err]          *)
EXTENDS JudgeBase, MultiLog
LogOf(o, c) == IF c.eps THEN [i \in 1 .. Len(o.log) |-> [o.log[i] EXCEPT !.ps = o.log[i].eps, !.pa = o.log[i].epa]] ELSE o.log
CallVerdict(log, c) ==
  LET cs == Plain(c.est, c.lam, log)
      v == MValue(c.est, c.lam, log)
      st == Strata(log, cs)
      tol == RMul("1/100000000", RAdd(1, AbsMean(cs)))
  IN IF c.err # "" THEN c.est \o " raised on a valid log: " \o c.err
     ELSE IF ~RFin(c.res) THEN c.est \o " is not finite, expected " \o RStr(v)
     ELSE IF Degenerate(c.est, c.lam, log) THEN
        IF RLe(RSub(HullMin(st), tol), c.res) /\ RLe(c.res, RAdd(HullMax(st), tol)) THEN "ok" ELSE c.est \o " is not a combination of the stratum estimates"
     ELSE IF RNear(c.res, v, tol) THEN "ok"
     ELSE c.est \o " value: got " \o RStr(c.res) \o " expected " \o RStr(v) \o " (lambda=" \o RStr(c.lam) \o ")"
Verdict(o) == FirstBad([k \in 1 .. Len(o.calls) |-> CallVerdict(LogOf(o, o.calls[k]), o.calls[k])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
