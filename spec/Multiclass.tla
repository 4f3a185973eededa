------------------------------ MODULE Multiclass ------------------------------
(***************************************************************************)
(* Reduction of a classification sample to logged bandit data.             *)
(* A sample has a raw label (any number); its class is the rank of the     *)
(* label among the distinct labels.  The life of a reduction object:       *)
(*   Construct -> Split -> Log (behaviour policy) / Evaluate (any policy)  *)
(* Classifiers are abstract: a table from sample to predicted class.       *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets
Labels(y) == {y[i] : i \in 1 .. Len(y)}
ClassOf(y, i) == Cardinality({l \in Labels(y) : RLt(l, y[i])})       \* 0-based
NClasses(y) == Cardinality(Labels(y))
(* alpha on the predicted class, the rest uniform over all K classes *)
Base(alpha, pred, K, a) == RAdd(RDiv(RSub(1, alpha), K), IF a = pred THEN alpha ELSE 0)
PolicyRow(alpha, pred, K) == [a \in 1 .. K |-> Base(alpha, pred, K, a - 1)]
(* deficient actions get probability zero, the others are renormalised *)
DeficientRow(row, dead) ==
  LET s == RSum([a \in 1 .. Len(row) |-> IF a - 1 \in dead THEN "0" ELSE row[a]]) IN
  [a \in 1 .. Len(row) |-> IF a - 1 \in dead THEN "0" ELSE RDiv(row[a], s)]
RewardOf(y, i, a) == IF ClassOf(y, i) = a THEN 1 ELSE 0
(* value of a policy on the evaluation samples: ev is a sequence of sample indices *)
TrueValue(y, ev, dist) == RDiv(RSum([k \in 1 .. Len(ev) |-> dist[k][ClassOf(y, ev[k]) + 1]]), Len(ev))
=============================================================================
