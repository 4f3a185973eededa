------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Bootstrap confidence intervals.  x is the sequence of per-round (or per *)
(* slate) contributions; one bootstrap draw is a function from 1..n to     *)
(* 1..n, its value the mean of the drawn contributions; an interval is     *)
(* read off a sequence of such values by linear-interpolation percentiles. *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt
IMean(s) == RDiv(RSum(s), Len(s))
IMin(s) == FoldLeft(LAMBDA a, b : RMin(a, b), "inf", s)
IMax(s) == FoldLeft(LAMBDA a, b : RMax(a, b), "-inf", s)
IVar(s) == LET m == IMean(s) IN RTrim(IMean([i \in 1 .. Len(s) |-> RSq(RSub(s[i], m))]))
-----------------------------------------------------------------------------
Draws(n) == [1 .. n -> 1 .. n]
DrawMean(x, f) == IMean([i \in 1 .. Len(x) |-> x[f[i]]])
SortedR(s) == SortSeq(s, LAMBDA a, b : RLt(a, b))
(* p in [0, 1], s sorted *)
Percentile(s, p) ==
  LET pos == RMul(Len(s) - 1, p)
      k == RFloor(pos)
      fr == RSub(pos, k)
  IN IF k + 1 >= Len(s) THEN s[Len(s)] ELSE RAdd(s[k + 1], RMul(fr, RSub(s[k + 2], s[k + 1])))
IntervalOf(boots, alpha) == LET s == RSeq(SortedR(boots)) IN
  [mean |-> IMean(boots), lo |-> Percentile(s, RDiv(alpha, 2)), hi |-> Percentile(s, RSub(1, RDiv(alpha, 2)))]
-----------------------------------------------------------------------------
(* exact distribution of one bootstrap mean: a sequence of atoms [v, m],     *)
(* m the probability.  Small n by enumeration, two-valued x by the binomial. *)
Values(x) == {x[i] : i \in 1 .. Len(x)}
SmallN == 4
Enumerated(x) == LET n == Len(x)
                     fs == SetToSeq(Draws(n))
                 IN RSeq([k \in 1 .. Len(fs) |-> [v |-> DrawMean(x, fs[k]), m |-> RDiv(1, Len(fs))]])
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN "1" ELSE RMul(a, RPow(a, k - 1))
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN "1" ELSE RDiv(RMul(Choose(n, k - 1), n - k + 1), k)
TwoValued(x) == LET n == Len(x)
                    a == IMin(x)
                    b == IMax(x)
                    h == Cardinality({i \in 1 .. n : x[i] = b})
                IN RSeq([j \in 1 .. n + 1 |-> [v |-> RDiv(RAdd(RMul(j - 1, b), RMul(n - j + 1, a)), n),
                      m |-> RMul(Choose(n, j - 1), RMul(RPow(RDiv(h, n), j - 1), RPow(RDiv(n - h, n), n - j + 1)))]])
Exact(x) == Len(x) <= SmallN \/ Cardinality(Values(x)) = 2
Atoms(x) == IF Cardinality(Values(x)) = 1 THEN <<[v |-> x[1], m |-> "1"]>>
            ELSE IF Cardinality(Values(x)) = 2 THEN TwoValued(x) ELSE Enumerated(x)
PLe(at, v) == RSum([k \in 1 .. Len(at) |-> IF RLe(at[k].v, v) THEN at[k].m ELSE "0"])
PLt(at, v) == RSum([k \in 1 .. Len(at) |-> IF RLt(at[k].v, v) THEN at[k].m ELSE "0"])
IsAtom(at, v, tol) == \E k \in 1 .. Len(at) : RLe(RAbs(RSub(at[k].v, v)), tol)
(* v can be the p-percentile of B independent draws: deviations of the       *)
(* empirical distribution beyond six standard deviations are ruled out       *)
Slack(p, B) == RAdd(RMul(6, RSqrt(RDiv(RMul(p, RSub(1, p)), B))), RDiv(6, B))
QuantileMay(at, p, B, v, tol) == /\ RLe(RSub(p, Slack(p, B)), PLe(at, RAdd(v, tol)))
                                 /\ RLe(PLt(at, RSub(v, tol)), RAdd(p, Slack(p, B)))
MeanMay(x, B, v, tol) == RLe(RAbs(RSub(v, IMean(x))), RAdd(tol, RMul(6, RSqrt(RDiv(IVar(x), RMul(B, Len(x)))))))
(* with two draws the interval determines both, which must be bootstrap means *)
PairMay(at, alpha, o, tol) ==
  LET gap == RDiv(RSub(o.hi, o.lo), RSub(1, alpha))
      a == RSub(o.mean, RDiv(gap, 2))
      b == RAdd(o.mean, RDiv(gap, 2))
  IN /\ RNear(RAdd(o.lo, o.hi), RMul(2, o.mean), tol) /\ IsAtom(at, a, RMul(4, tol)) /\ IsAtom(at, b, RMul(4, tol))
(* ------------------------------------------------- judge of one interval *)
IntervalVerdict(x, alpha, B, o, tol) ==
  IF ~(RFin(o.mean) /\ RFin(o.lo) /\ RFin(o.hi)) THEN "interval is not finite"
  ELSE IF ~RLe(o.lo, RAdd(o.hi, tol)) THEN "lower bound above upper bound"
  ELSE IF RLt(o.lo, RSub(IMin(x), tol)) \/ RLt(RAdd(IMax(x), tol), o.hi) \/ RLt(o.mean, RSub(IMin(x), tol)) \/ RLt(RAdd(IMax(x), tol), o.mean)
       THEN "interval leaves the range of the contributions"
  ELSE IF ~MeanMay(x, B, o.mean, tol) THEN "bootstrap mean is not centred at the mean contribution: got " \o RStr(o.mean) \o " expected " \o RStr(IMean(x))
  ELSE IF Len(x) <= 1 \/ ~Exact(x) THEN "ok"
  ELSE LET at == Atoms(x) IN
       IF B = 1 /\ ~(IsAtom(at, o.mean, tol) /\ RNear(o.lo, o.mean, tol) /\ RNear(o.hi, o.mean, tol)) THEN "a single bootstrap draw is not the mean of n drawn contributions"
       ELSE IF B = 2 /\ ~PairMay(at, alpha, o, tol) THEN "two bootstrap draws are not means of n drawn contributions, or not read off as percentiles"
       ELSE IF ~QuantileMay(at, RDiv(alpha, 2), B, o.lo, tol) THEN "lower bound is not the alpha/2 percentile: got " \o RStr(o.lo)
       ELSE IF ~QuantileMay(at, RSub(1, RDiv(alpha, 2)), B, o.hi, tol) THEN "upper bound is not the 1-alpha/2 percentile: got " \o RStr(o.hi)
       ELSE "ok"
-----------------------------------------------------------------------------
(* closed-form high-probability lower bounds of the mean of x *)
HoeffdingLB(x, xmax, d) == RSub(IMean(x), RMul(xmax, RSqrt(RDiv(RLog(RDiv(1, d)), 2 * Len(x)))))
BernsteinLB(x, xmax, d) == LET ld == RLog(RDiv(2, d))
                               n1 == Len(x) - 1
  IN RSub(RSub(IMean(x), RDiv(RMul(RMul(7, xmax), ld), 3 * n1)), RSqrt(RDiv(RMul(RMul(2, ld), IVar(x)), n1)))
StudentLB(x, d) == RSub(IMean(x), RMul(RSqrt(RDiv(IVar(x), Len(x) - 1)), RTQuantile(RSub(1, d), Len(x) - 1)))
=============================================================================
