------------------------------ MODULE SynthLog ------------------------------
(***************************************************************************)
(* Synthetic logged bandit data.                                           *)
(* A batch is a sequence of rounds; each round has a context, a location   *)
(* parameter per action (what the reward function returns), an expected    *)
(* reward per action, logits, a supported set, a logging policy row, the   *)
(* sampled action, its propensity and a reward.  With several loggers the  *)
(* rounds are divided into strata, each with its own inverse temperature.  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets
LOCAL MaxOf(s, S) == LET m == CHOOSE a \in S : \A b \in S : RLe(s[b], s[a]) IN s[m]
(* softmax of beta * logits over the supported actions S (1-based), zero elsewhere *)
Softmax(logits, beta, S) ==
  LET z == RSeq([a \in 1 .. Len(logits) |-> RMul(beta, logits[a])])
      m == MaxOf(z, S)
      w == RSeq([a \in 1 .. Len(logits) |-> IF a \in S THEN RExp(RSub(z[a], m)) ELSE "0"])
      t == RSum(w)
  IN RSeq([a \in 1 .. Len(logits) |-> RTrim(RDiv(w[a], t))])
(* mixture of the loggers: weights rho (any nonnegative numbers, normalised here) *)
Mixture(logits, betas, rhos, S) ==
  LET t == RSum(rhos)
      rows == RSeq([k \in 1 .. Len(betas) |-> Softmax(logits, betas[k], S)])
  IN RSeq([a \in 1 .. Len(logits) |-> RTrim(RSum([k \in 1 .. Len(betas) |-> RMul(RDiv(rhos[k], t), rows[k][a])]))])
(* admissible strata sizes: proportional up to rounding, the last takes what remains, none is negative *)
RECURSIVE SumI(_, _)
SumI(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumI(s, k - 1)
SizesOk(sizes, n, rhos) ==
  LET t == RSum(rhos) IN
  /\ \A k \in 1 .. Len(sizes) : sizes[k] >= 0
  /\ SumI(sizes, Len(sizes)) = n
  /\ \A k \in 1 .. Len(sizes) - 1 :
       \/ RLe(RAbs(RSub(sizes[k], RDiv(RMul(n, rhos[k]), t))), "500000001/1000000000")
       \/ SumI(sizes, k) = n /\ RLe(sizes[k], RDiv(RMul(n, rhos[k]), t))
(* -------- rewards: Bernoulli, or normal truncated to [0, infinity) -------- *)
StdPdf(z) == RDiv(RExp(RDiv(RNeg(RSq(z)), 2)), RSqrt(RMul(2, RPi)))
TruncMeanAt(loc, sd) == LET z == RDiv(loc, sd) IN RTrim(RAdd(loc, RMul(sd, RDiv(StdPdf(z), RPhi(z)))))
(* density and distribution function of a normal truncated to [lo, hi] *)
(* (computed in the tail that holds the interval, to keep relative precision) *)
Below(x, loc, sd) == IF x = "inf" THEN "1" ELSE IF x = "-inf" THEN "0" ELSE RPhi(RDiv(RSub(x, loc), sd))
Above(x, loc, sd) == IF x = "inf" THEN "0" ELSE IF x = "-inf" THEN "1" ELSE RPhi(RDiv(RSub(loc, x), sd))
Mass(lo, hi, loc, sd) == IF lo # "-inf" /\ RLt(loc, lo) THEN RSub(Above(lo, loc, sd), Above(hi, loc, sd)) ELSE RSub(Below(hi, loc, sd), Below(lo, loc, sd))
TruncPdf(x, lo, hi, loc, sd) == RDiv(StdPdf(RDiv(RSub(x, loc), sd)), RMul(sd, Mass(lo, hi, loc, sd)))
TruncCdf(x, lo, hi, loc, sd) == RDiv(Mass(lo, x, loc, sd), Mass(lo, hi, loc, sd))
(* value of a policy: mean over rounds of the probability-weighted expected rewards *)
PolicyValue(q, pi) == RDiv(RSum([i \in 1 .. Len(q) |-> RDot(q[i], pi[i])]), Len(q))
(* marginal expected reward of an action through its embedding distribution:      *)
(* qxe[c][d] expected reward of category c of dimension d, pe[c][d] its probability *)
EmbedReward(w, qxe, pe) == RSum([d \in 1 .. Len(w) |-> RMul(w[d], RSum([c \in 1 .. Len(qxe) |-> RMul(qxe[c][d], pe[c][d])]))])
(* ------- sampling: a bounded martingale leaves Freedman's bound with probability 1e-9 ------- *)
(* s: the sum, v: its predictable variance, all steps at most 1 in size *)
Within(s, v) == LET t == RAbs(s) IN RLe(t, 14) \/ RLe(RSq(RSub(t, 14)), RMul("85/2", v))
(* ------- polynomial features of sklearn's order: monomials by degree, lexicographic ------- *)
RECURSIVE Monos(_, _, _)
Monos(x, deg, from) == IF deg = 0 THEN <<"1">> ELSE
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(x) THEN <<>> ELSE [m \in 1 .. Len(Monos(x, deg - 1, i)) |-> RMul(x[i], Monos(x, deg - 1, i)[m])] \o Go(i + 1)
  IN Go(from)
RECURSIVE PolyUpTo(_, _)
PolyUpTo(x, deg) == IF deg = 0 THEN <<"1">> ELSE PolyUpTo(x, deg - 1) \o Monos(x, deg, 1)
Poly(x, deg) == RSeq(PolyUpTo(x, deg))
(* raw value of the reward functions: features f of the context, g of the action *)
RawReward(f, g, cc, ac, ca) == RAdd(RAdd(RDot(f, cc), RDot(g, ac)), RSum([i \in 1 .. Len(f) |-> RMul(f[i], RDot(ca[i], g))]))
(* standardise a table: subtract the mean over all entries, divide by their standard deviation *)
TableMean(t) == RDiv(RSum([i \in 1 .. Len(t) |-> RSum(t[i])]), Len(t) * Len(t[1]))
TableVar(t) == LET m == RTrim(TableMean(t)) IN RDiv(RSum([i \in 1 .. Len(t) |-> RSum([a \in 1 .. Len(t[1]) |-> RSq(RSub(t[i][a], m))])]), Len(t) * Len(t[1]))
Standardise(t) == LET m == RTrim(TableMean(t))
                      s == RSqrt(RTrim(TableVar(t))) IN
  RSeq([i \in 1 .. Len(t) |-> RSeq([a \in 1 .. Len(t[1]) |-> RTrim(RDiv(RSub(t[i][a], m), s))])])
=============================================================================
