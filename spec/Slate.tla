-------------------------------- MODULE Slate --------------------------------
(***************************************************************************)
(* Logged slates and the slate off-policy estimators.                      *)
(*                                                                         *)
(* A slate log is a sequence of rows (storage order is irrelevant); a row  *)
(*   s  slate id      l  position (0-based)    r  slot reward              *)
(*   pb, pe     slate propensities  (equal on all rows of a slate)         *)
(*   ib, ie     slot propensities   cb, ce  cascade (prefix) propensities  *)
(*   a  action   q[a+1] Q-estimates of every action at that slot           *)
(*   d[a+1]     evaluation policy's choice probabilities at that slot      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Slates(log) == {log[i].s : i \in 1 .. Len(log)}
NSlates(log) == Cardinality(Slates(log))

WS(x) == RDiv(x.pe, x.pb)
WI(x) == RDiv(x.ie, x.ib)
WR(x) == RDiv(x.ce, x.cb)
WeightOf(est, x) ==
  CASE est \in {"sips", "snsips"} -> WS(x)
    [] est \in {"iips", "sniips"} -> WI(x)
    [] OTHER -> WR(x)

(* the row of the slot above x in the same slate, if any *)
Above(log, x) == {i \in 1 .. Len(log) : log[i].s = x.s /\ log[i].l < x.l}
PrevWeight(log, x) ==
  IF Above(log, x) = {} THEN "1"
  ELSE WR(log[CHOOSE i \in Above(log, x) : \A j \in Above(log, x) : log[j].l <= log[i].l])

SeqMean(s) == RDiv(RSum(s), Len(s))
RECURSIVE Select(_, _, _)
Select(log, P(_), i) == IF i > Len(log) THEN <<>>
  ELSE IF P(log[i]) THEN <<log[i]>> \o Select(log, P, i + 1) ELSE Select(log, P, i + 1)
Peers(est, log, x) == IF est = "snsips" THEN log ELSE Select(log, LAMBDA y : y.l = x.l, 1)
MeanWeight(est, log, x) ==
  LET ps == Peers(est, log, x) IN SeqMean([i \in 1 .. Len(ps) |-> WeightOf(est, ps[i])])

SelfNorm == {"snsips", "sniips", "snrips"}
RowValue(est, log, x) ==
  CASE est \in {"sips", "iips", "rips"} -> RMul(x.r, WeightOf(est, x))
    [] est \in SelfNorm -> RDiv(RMul(x.r, WeightOf(est, x)), MeanWeight(est, log, x))
    [] est = "cascade-dr" -> RAdd(RMul(WR(x), RSub(x.r, x.q[x.a + 1])), RMul(PrevWeight(log, x), RDot(x.d, x.q)))

RowValues(est, log) == [i \in 1 .. Len(log) |-> RowValue(est, log, log[i])]
(* a self-normalised value is undefined when some normaliser is zero *)
SlateDefined(est, log) == est \in SelfNorm => \A i \in 1 .. Len(log) : ~REq(MeanWeight(est, log, log[i]), 0)
SlateValue(est, log) == RDiv(RSum(RowValues(est, log)), NSlates(log))
SlateScale(est, log) == RDiv(RSum([i \in 1 .. Len(log) |-> RAbs(RowValue(est, log, log[i]))]), NSlates(log))
(* contribution of one slate: what the bootstrap resamples *)
PerSlate(est, log, s) ==
  RSum([i \in 1 .. Len(log) |-> IF log[i].s = s THEN RowValue(est, log, log[i]) ELSE "0"])
SlateEsts == {"sips", "iips", "rips", "snsips", "sniips", "snrips", "cascade-dr"}
=============================================================================
