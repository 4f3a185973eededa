------------------------------ MODULE Nuisance ------------------------------
(* Nuisance models trained on logged data: what each fit is handed and which  *)
(* fitted model answers for which round (obp/ope/regression_model.py,         *)
(* obp/ope/classification_model.py).                                          *)
(* A log is a sequence of rounds [x (context), a, p, r, ps, pi] where pi is   *)
(* the evaluation distribution as action -> position table; emb is the        *)
(* sequence of action embeddings.  A training row is [r, x, y, w]: the round  *)
(* it comes from, features, target, weight.  A fit is [m, rows, par] with m   *)
(* the model instance and par = [b, c] the parameters it ended up with.       *)
EXTENDS Num, Integers, Sequences, FiniteSets
\* ---------------------------------------------------------- base models
Affine(b, c, x) == RAdd(b, RDot(c, x))
Sigmoid(z) == RDiv("1", RAdd("1", RExp(RNeg(z))))
\* ------------------------------------------------ the reward regression
Importance(rd) == RDiv(rd.pi[rd.a + 1][rd.p + 1], rd.ps)
RegWeight(method, rd) ==
  IF method = "normal" THEN "1"
  ELSE IF method = "iw" THEN Importance(rd)
  ELSE RDiv(RMul(rd.pi[rd.a + 1][rd.p + 1], RSub("1", rd.ps)), RSq(rd.ps))
RegFeatures(rd, emb) == rd.x \o emb[rd.a + 1]
\* training rows of the rounds in S at position p (as a set of round-indexed rows)
RegRows(log, emb, method, S, p) ==
  {[r |-> i, x |-> RegFeatures(log[i], emb), y |-> log[i].r, w |-> RegWeight(method, log[i])] : i \in {j \in S : log[j].p = p}}
RegPredict(par, x, emb, a) == Affine(par.b, par.c, x \o emb[a + 1])
\* -------------------------------------------------------- cross-fitting
Rounds(log) == 1 .. Len(log)
\* what instance fits[k].m knows after fit k: its own rows, and those of earlier
\* fits too when the base model warm-starts
Knows(fits, k, warm) ==
  UNION {{fits[j].rows[i].r : i \in 1 .. Len(fits[j].rows)} : j \in {j \in 1 .. k : j = k \/ (warm /\ fits[j].m = fits[k].m)}}
\* a family fold(_) of disjoint held-out sets, nfolds of them, of balanced sizes, covering all rounds
Partition(n, fold, nfolds) ==
  /\ \A i \in 1 .. n : i \in fold[i]
  /\ \A i \in 1 .. n : \A j \in fold[i] : fold[j] = fold[i]
  /\ Cardinality({fold[i] : i \in 1 .. n}) = nfolds
  /\ \A i, j \in 1 .. n : Cardinality(fold[i]) <= Cardinality(fold[j]) + 1
=============================================================================
