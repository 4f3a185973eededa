------------------------------ MODULE CheckC07 ------------------------------
(* Record of kind "interval": fam, est, log (and pea, h, kn, lam ...), alpha, *)
(* B, out [mean, lo, hi], level and keys of the returned dictionary, rep (the *)
(* same seed gave the same answer), wide (the interval at a smaller alpha).   *)
(* Record of kind "bound": x, xmax, delta, name, res.                         *)
EXTENDS JudgeBase, Interval
ML == INSTANCE MultiLog
SL == INSTANCE Slate
KE == INSTANCE Kernel
EM == INSTANCE Embed
LogOf(o) == IF Has(o, "eps") /\ o.eps THEN [i \in 1 .. Len(o.log) |-> IF Has(o.log[i], "epa") THEN [o.log[i] EXCEPT !.ps = o.log[i].eps, !.pa = o.log[i].epa] ELSE [o.log[i] EXCEPT !.ps = o.log[i].eps]] ELSE o.log
MultiC(o, log) ==
  LET c == ML!Plain(o.est, o.lam, log) IN
  IF ~ML!IsWeighted(o.est) THEN c
  ELSE LET st == ML!Strata(log, c)
           w == ML!StratumWeights(Len(log), st)
       IN RSeq([i \in 1 .. Len(log) |-> RMul(c[i], w[CHOOSE j \in 1 .. Len(st) : st[j].k = log[i].k])])
SlateC(o, log) == LET ss == SetToSeq(SL!Slates(log)) IN RSeq([k \in 1 .. Len(ss) |-> SL!PerSlate(o.est, log, ss[k])])
Contribs(o) ==
  LET log == RSeq(LogOf(o))
      raw == CASE o.fam \in {"single", "tuning"} -> ML!Contrib(o.est, o.lam, log)
               [] o.fam = "multi" -> MultiC(o, log)
               [] o.fam = "slate" -> SlateC(o, log)
               [] o.fam = "kernel" -> KE!KContrib(o.est, o.kn, o.h, log)
               [] o.fam = "embed" -> EM!RHat(o.sn, log, EM!WE(log, o.pea, 1 .. o.D))
  IN RSeq([i \in 1 .. Len(raw) |-> RTrim(raw[i])])
Undefined(o) ==
  LET log == LogOf(o) IN
  CASE o.fam = "single" -> ~ML!Defined(o.est, o.lam, log)
    [] o.fam = "multi" -> ML!Degenerate(o.est, o.lam, log)
    [] o.fam = "slate" -> ~SL!SlateDefined(o.est, log)
    [] o.fam = "kernel" -> ~KE!KDefined(o.est, o.kn, o.h, log)
    [] o.fam = "embed" -> o.sn /\ RLe(EM!EMean(EM!WE(log, o.pea, 1 .. o.D)), "1/1000000")
    [] OTHER -> FALSE
IntVerdict(o) ==
  IF o.err # "" THEN o.est \o ": interval estimation raised on a valid log: " \o o.err
  ELSE IF ~RNear(o.level, RMul(100, RSub(1, o.alpha)), "1/1000000000") THEN o.est \o ": the keys do not name the requested confidence level"
  ELSE IF ~o.rep THEN o.est \o ": the same seed gives a different interval"
  ELSE IF Undefined(o) THEN "ok"
  ELSE LET x == Contribs(o)
           tol == RMul("1/100000000", RAdd(1, IMean([i \in 1 .. Len(x) |-> RAbs(x[i])])))
           v == IntervalVerdict(x, o.alpha, o.B, o.out, tol)
       IN IF v # "ok" THEN o.est \o ": " \o v
          ELSE IF RLt(RAdd(o.out.lo, tol), o.wide.lo) \/ RLt(RAdd(o.wide.hi, tol), o.out.hi) THEN o.est \o ": a smaller alpha gives a narrower interval"
          ELSE "ok"
BoundVerdict(o) ==
  LET e == CASE o.name = "hoeffding" -> HoeffdingLB(o.x, o.xmax, o.delta)
             [] o.name = "bernstein" -> BernsteinLB(o.x, o.xmax, o.delta)
             [] o.name = "student" -> StudentLB(o.x, o.delta)
  IN IF o.err # "" THEN o.name \o " bound raised: " \o o.err
     ELSE IF RNear(o.res, e, "1/100000000") THEN "ok" ELSE o.name \o " bound: got " \o RStr(o.res) \o " expected " \o RStr(e)
Verdict(o) == IF o.kind = "bound" THEN BoundVerdict(o) ELSE IntVerdict(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
