------------------------------ MODULE CheckC05 ------------------------------
(* Record: log, pea, D; calls [sn, method ("none"|"exact"|"greedy"), mn,      *)
(* delta, res, err].  Where two candidates are (numerically) tied only        *)
(* membership in the set of candidate estimates is required.                  *)
EXTENDS JudgeBase, Embed
Tie == "1/1000000000"
TabSeq(tab) == LET q == SetToSeq(DOMAIN tab) IN RSeq([k \in 1 .. Len(q) |-> tab[q[k]]])
Ambiguous(tab) == LET t == TabSeq(tab) IN
  \/ \E i, j \in 1 .. Len(t) : i < j /\ RNear(t[i].cnf, t[j].cnf, Tie)
  \/ \E i, j \in 1 .. Len(t) : i # j /\ RLe(RAbs(Gap(t[i], t[j])), RMul(Tie, RAdd(1, RAbs(t[i].cnf))))
CallV(o, c) ==
  LET full == 1 .. o.D
      zero == c.sn /\ REq(EMean(WE(o.log, o.pea, full)), 0) IN
  IF zero THEN "ok"
  ELSE IF c.err # "" THEN (IF c.sn THEN "snmipw" ELSE "mipw") \o "/" \o c.method \o " raised on a valid log: " \o c.err
  ELSE IF c.method = "none" \/ o.D = 1 THEN
     LET t == Theta(c.sn, o.log, o.pea, full) IN
     IF RFin(c.res) /\ RNear(c.res, t, "1/100000000") THEN "ok" ELSE (IF c.sn THEN "snmipw" ELSE "mipw") \o ": got " \o RStr(c.res) \o " expected " \o RStr(t)
  ELSE
     LET tab == Table(c.sn, o.log, o.pea, o.D, c.mn, c.delta)
         s == Selected(c.method, tab, o.D, c.mn) IN
     IF RFin(c.res) /\ RNear(c.res, s.th, "1/100000000") THEN "ok"
     ELSE IF Ambiguous(tab) /\ \E S \in DOMAIN tab : RNear(c.res, tab[S].th, "1/100000000") THEN "ok"
     ELSE (IF c.sn THEN "snmipw/" ELSE "mipw/") \o c.method \o ": got " \o RStr(c.res) \o ", the rule selects dimensions " \o ToString(s.S) \o " with estimate " \o RStr(s.th)
Verdict(o) == FirstBad([k \in 1 .. Len(o.calls) |-> CallV(o, o.calls[k])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
