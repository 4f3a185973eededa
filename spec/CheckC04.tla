------------------------------ MODULE CheckC04 ------------------------------
(* kinds: value  - estimates on a log                                         *)
(*        kernel - the kernel functions themselves                            *)
EXTENDS JudgeBase, Kernel
AbsM(s) == RDiv(RSum([i \in 1 .. Len(s) |-> RAbs(s[i])]), Len(s))
CallV(log, c) ==
  IF ~KDefined(c.est, c.kn, c.h, log) THEN "ok"
  ELSE IF c.err # "" THEN c.est \o "/" \o c.kn \o " raised on a valid log: " \o c.err
  ELSE LET cs == RSeq(KContrib(c.est, c.kn, c.h, log))
           v == KMean(cs)
           sc == AbsM(cs)
       IN IF RFin(c.res) /\ RLe(RAbs(RSub(c.res, v)), RAdd("1/1000000000000000000", RMul(Tol, RMax(sc, RMul(sc, sc))))) THEN "ok"
          ELSE IF RFin(c.res) /\ RNear(c.res, v, "1/1000000000000") THEN "ok"
          ELSE c.est \o "/" \o c.kn \o ": got " \o RStr(c.res) \o " expected " \o RStr(v)
KernV(o) == FirstBad([i \in 1 .. Len(o.us) |-> IF RNear(o.ks[i], K(o.kn, o.us[i]), Tol) THEN "ok"
     ELSE o.kn \o " kernel at " \o RStr(o.us[i]) \o " is " \o RStr(o.ks[i])])
Verdict(o) == IF o.kind = "kernel" THEN (IF o.err # "" THEN "kernel raised: " \o o.err ELSE KernV(o))
              ELSE FirstBad([k \in 1 .. Len(o.calls) |-> CallV(o.log, o.calls[k])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
