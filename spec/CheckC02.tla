------------------------------ MODULE CheckC02 ------------------------------
(* Judge: every slate estimator's value = SlateValue of the row set.          *)
EXTENDS JudgeBase, Slate
CallVerdict(log, c) ==
  LET v == SlateValue(c.est, log)
      tol == RMul(Tol, RAdd(1, SlateScale(c.est, log)))
  IN IF ~SlateDefined(c.est, log) THEN "ok"
     ELSE IF c.err # "" THEN c.est \o " raised on a valid slate log: " \o c.err
     ELSE IF ~RFin(c.res) THEN c.est \o " is not finite, expected " \o RStr(v)
     ELSE IF RNear(c.res, v, tol) THEN "ok"
     ELSE c.est \o " value: got " \o RStr(c.res) \o " expected " \o RStr(v)
Verdict(o) == FirstBad([k \in 1 .. Len(o.calls) |-> CallVerdict(o.log, o.calls[k])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
