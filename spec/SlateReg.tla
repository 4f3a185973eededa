------------------------------ MODULE SlateReg ------------------------------
(* Backward fitting of the slate reward model (obp/ope/                       *)
(* regression_model_slate.py).  A slate is [x (context), a (actions by slot), *)
(* r (rewards), cb, ce (cascade propensities of the two policies), d (per     *)
(* slot, evaluation distribution over the actions)].  A fitted base model is  *)
(* its parameters par = [b, c], affine in the features.                       *)
EXTENDS Num, Integers, Sequences, FiniteSets
Slots(s) == Len(s.a)
Features(s, l, last) == s.x \o SubSeq(s.a, 1, l - 1) \o <<last>>     \* slots are 1..L; last: the action at slot l
QValue(par, s, l, act) == RAdd(par.b, RDot(par.c, Features(s, l, act)))
\* expectation of the slot's model under the evaluation distribution, given the logged prefix
Continuation(par, s, l) == RSum([a \in 1 .. Len(s.d[l]) |-> RMul(s.d[l][a], QValue(par, s, l, a - 1))])
\* par: parameters of the next slot's model (unused at the last slot)
Target(s, l, par) == IF l = Slots(s) THEN s.r[l] ELSE RAdd(s.r[l], Continuation(par, s, l + 1))
Weight(method, s, l) == IF method = "iw" THEN RDiv(s.ce[l], s.cb[l]) ELSE "1"
=============================================================================
