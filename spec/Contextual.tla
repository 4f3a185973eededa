------------------------------ MODULE Contextual ------------------------------
(***************************************************************************)
(* Contextual online policies with batched learning.                       *)
(* A history is the sequence of updates [a, r, x] since initialisation.    *)
(* Linear: ridge regression (unit prior) of each action's committed pairs. *)
(* Logistic: at the end of each batch, an action's Gaussian posterior      *)
(* (mean m, precision q) is refitted on its pairs of that batch.           *)
(***************************************************************************)
EXTENDS LinAlg, ContextFree
Pairs(h, a) == SelectSeq(h, LAMBDA e : e.a = a)
RECURSIVE Gram(_, _), Moment(_, _)
Gram(ps, d) == IF ps = <<>> THEN Ident(d) ELSE MAdd(Outer(ps[1].x, ps[1].x), Gram(Tail(ps), d))
Moment(ps, d) == IF ps = <<>> THEN ZeroVec(d) ELSE VAdd(VScale(ps[1].r, ps[1].x), Moment(Tail(ps), d))
Theta(ps, d) == Solve(Gram(ps, d), Moment(ps, d))
Width2(ps, d, x) == RDot(x, Solve(Gram(ps, d), x))        \* squared confidence width

(* rank-one update of an inverse *)
Sherman(Ainv, x) == LET u == MVec(Ainv, x) IN MSub(Ainv, MScale(RDiv(1, RAdd(1, RDot(x, u))), Outer(u, u)))

Sigm(z) == IF RLe(0, z) THEN RDiv(1, RAdd(1, RExp(RNeg(z)))) ELSE LET e == RExp(z) IN RDiv(e, RAdd(1, e))
(* pairs of action a in the batch that ends with the whole of h *)
LastBatch(h, b, a) == Pairs(SubSeq(h, Len(h) - b + 1, Len(h)), a)
(* gradient at w of  1/2 sum q (w-m)^2  -  log-likelihood of the pairs (reward 1/0) *)
LogGrad(w, m, qq, ps) ==
  [i \in 1 .. Len(w) |-> RAdd(RMul(qq[i], RSub(w[i], m[i])),
     RSum([k \in 1 .. Len(ps) |-> RMul(RSub(Sigm(RDot(w, ps[k].x)), ps[k].r), ps[k].x[i])]))]
Precision(w, qq, ps) ==
  [i \in 1 .. Len(w) |-> RAdd(qq[i], RSum([k \in 1 .. Len(ps) |->
     LET p == Sigm(RDot(w, ps[k].x)) IN RMul(RMul(p, RSub(1, p)), RSq(ps[k].x[i]))]))]
=============================================================================
