-------------------------------- MODULE Meta --------------------------------
(* The evaluator that runs several estimators on one log (obp/ope/meta*.py).  *)
(* An estimator is opaque: a name and a function of the inputs it is handed.  *)
(* Here it is [name, base, coef] where coef lists [f, c] (input name,         *)
(* coefficient) and inputs are represented by rational tokens; its value is   *)
(* base + sum of c * token, an absent input counting -1.                      *)
(* An argument of an evaluator call is [mode |-> "none"], [mode |-> "all", v] *)
(* or [mode |-> "dict", d] with d mapping estimator names to tokens.          *)
EXTENDS Num, Integers, Sequences, FiniteSets
Routed(x, name) ==
  IF x.mode = "all" THEN x.v
  ELSE IF x.mode = "dict" /\ name \in DOMAIN x.d THEN x.d[name]
  ELSE "none"
Tok(t) == IF t = "none" THEN "-1" ELSE t
\* what estimator e is handed as input f in a call with arguments args on log
InputOf(e, f, log, args) ==
  IF f \in DOMAIN args THEN Routed(args[f], e.name)
  ELSE IF f \in DOMAIN log THEN log[f] ELSE "none"
ValueOf(e, log, args) ==
  RAdd(e.base, RSum([k \in 1 .. Len(e.coef) |-> RMul(e.coef[k].c, Tok(InputOf(e, e.coef[k].f, log, args)))]))
Values(ests, log, args) == [k \in 1 .. Len(ests) |-> [name |-> ests[k].name, v |-> ValueOf(ests[k], log, args)]]
\* relative value: undefined unless the logged average reward is positive
Relative(v, avg) == IF RLe(avg, "0") THEN "nan" ELSE RDiv(v, avg)
SquaredError(v, gt) == RSq(RSub(v, gt))
RelativeError(v, gt) == RAbs(RDiv(RSub(v, gt), gt))
=============================================================================
