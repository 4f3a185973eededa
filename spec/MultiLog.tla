------------------------------ MODULE MultiLog ------------------------------
(* Logs collected by several logging policies.  A round of OpeLog carries in  *)
(* addition k, the label of the logger that produced it (any natural number), *)
(* and pa, the propensity of its action under the mixture of the loggers.     *)
EXTENDS OpeLog, FiniteSets, SequencesExt
Labels(log) == {log[i].k : i \in 1 .. Len(log)}
Members(log, k) == SelectSeq([i \in 1 .. Len(log) |-> i], LAMBDA i : log[i].k = k)
WAvg(rd) == RDiv(At(rd.pi, rd), rd.pa)
IpwTerm(rd, w) == RMul(rd.r, w)
DrTerm(rd, w) == RAdd(Dm(rd), RMul(w, Resid(rd)))
Term(dr, rd, w) == IF dr THEN DrTerm(rd, w) ELSE IpwTerm(rd, w)
IsDr(est) == est \in {"multi_dr", "multi_bal_dr", "multi_weighted_dr"}
IsWeighted(est) == est \in {"multi_weighted_ipw", "multi_weighted_dr"}
IsBalanced(est) == est \in {"multi_bal_ipw", "multi_bal_dr"}
MultiEstimators == {"multi_ipw", "multi_bal_ipw", "multi_weighted_ipw", "multi_dr", "multi_bal_dr", "multi_weighted_dr"}
(* contributions before weighting the strata *)
Plain(est, lam, log) == RSeq([i \in 1 .. Len(log) |->
   Term(IsDr(est), log[i], Clip(IF IsBalanced(est) THEN WAvg(log[i]) ELSE W(log[i]), lam))])
Sub(c, idx) == RSeq([j \in 1 .. Len(idx) |-> c[idx[j]]])
VarOf(s) == LET m == Mean(s) IN Mean([i \in 1 .. Len(s) |-> RSq(RSub(s[i], m))])
(* table of the strata: label, size, mean and variance of the contributions *)
Strata(log, c) == LET ls == SetToSeq(Labels(log)) IN RSeq([j \in 1 .. Len(ls) |->
   LET s == Sub(c, Members(log, ls[j])) IN [k |-> ls[j], n |-> Len(s), mean |-> Mean(s), var |-> VarOf(s)]])
(* precision of each stratum; zero-variance strata are the limit case and take all the weight *)
Precision(st) == LET z == \E j \in 1 .. Len(st) : REq(st[j].var, 0) IN
   RSeq([j \in 1 .. Len(st) |-> IF z THEN (IF REq(st[j].var, 0) THEN "1" ELSE "0") ELSE RDiv(1, st[j].var)])
StratumWeights(n, st) == LET p == Precision(st)
                             t == RSum([j \in 1 .. Len(st) |-> RMul(st[j].n, p[j])])
                         IN RSeq([j \in 1 .. Len(st) |-> RDiv(RMul(n, p[j]), t)])
Combine(log, c) == LET st == Strata(log, c)
                       w == StratumWeights(Len(log), st)
                   IN RDiv(RSum([j \in 1 .. Len(st) |-> RMul(RMul(w[j], st[j].n), st[j].mean)]), Len(log))
MValue(est, lam, log) == LET c == Plain(est, lam, log) IN IF IsWeighted(est) THEN Combine(log, c) ELSE Mean(c)
Degenerate(est, lam, log) == IsWeighted(est) /\ LET st == Strata(log, Plain(est, lam, log)) IN
   Len(st) > 1 /\ \E j \in 1 .. Len(st) : RLe(st[j].var, "1/1000000000000000000")
(* the hull of the stratum means *)
HullMin(st) == FoldLeft(LAMBDA x, s : RMin(x, s.mean), "inf", st)
HullMax(st) == FoldLeft(LAMBDA x, s : RMax(x, s.mean), "-inf", st)
=============================================================================
