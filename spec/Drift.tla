-------------------------------- MODULE Drift --------------------------------
(***************************************************************************)
(* Non-stationary coefficients.  Anchors are numbered 0, 1, 2, ... in the  *)
(* order they are drawn; anchor 0 is also the fixed base.  In round t the  *)
(* coefficients are (1-lam) x anchor Lo(t) + lam x anchor Hi(t), mixed     *)
(* with the base at weight w.                                              *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Phase(t, D) == t \div D                          \* number of completed drift intervals
Left(t, D) == D - (t % D)                        \* rounds left in the interval, this one included
StepNo(t, D, T) == IF Left(t, D) > T THEN 0 ELSE T - Left(t, D) + 1
Lam(t, D, T) == RDiv(StepNo(t, D, T), T + 1)
Lo(t, D, seasonal) == IF seasonal THEN Phase(t, D) % 2 ELSE Phase(t, D)
Hi(t, D, seasonal) == IF seasonal THEN (Phase(t, D) + 1) % 2 ELSE Phase(t, D) + 1
Mix(lam, x, y) == RAdd(RMul(RSub(1, lam), x), RMul(lam, y))
Coef(base, lo, hi, lam, w) == Mix(w, Mix(lam, lo, hi), base)
=============================================================================
