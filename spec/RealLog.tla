------------------------------- MODULE RealLog -------------------------------
(***************************************************************************)
(* A production log read from a table.  A row has a time stamp ts, item a, *)
(* raw position p, click r, propensity ps and a tuple f of user features.  *)
(* Load orders whole rows by time (ties in any order) and ranks positions; *)
(* Split cuts the ordered log; Resample draws whole rows with replacement. *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets
Sorted(rows) == \A i \in 1 .. Len(rows) - 1 : RLe(rows[i].ts, rows[i + 1].ts)
Positions(rows) == {rows[i].p : i \in 1 .. Len(rows)}
PosRank(rows, x) == Cardinality({z \in Positions(rows) : z < x})
Cats(rows, j) == {rows[i].f[j] : i \in 1 .. Len(rows)}          \* category codes of feature j
CatAt(rows, j, k) == CHOOSE c \in Cats(rows, j) : Cardinality({d \in Cats(rows, j) : d < c}) = k
RECURSIVE Dummies(_, _, _)
(* indicator columns of every feature, first category of each dropped *)
Dummies(rows, rw, j) == IF j > Len(rw.f) THEN <<>>
  ELSE [k \in 1 .. Cardinality(Cats(rows, j)) - 1 |-> IF rw.f[j] = CatAt(rows, j, k) THEN 1 ELSE 0] \o Dummies(rows, rw, j + 1)
(* what the loader exposes for a row *)
Exposed(rows, rw) == [a |-> rw.a, p |-> PosRank(rows, rw.p), r |-> rw.r, ps |-> rw.ps, x |-> Dummies(rows, rw, 1)]
TrainSize(n, test) == RFloor(RMul(n, RSub(1, test)))
NActions(rows) == 1 + CHOOSE m \in {rows[i].a : i \in 1 .. Len(rows)} : \A i \in 1 .. Len(rows) : rows[i].a <= m
=============================================================================
