------------------------------ MODULE Learner ------------------------------
(* Offline policy learners that reduce policy learning to supervised          *)
(* learning (obp/policy/offline.py: IPWLearner, QLearner) and the way every   *)
(* offline learner turns scores into policies.                                *)
(*   - IPWLearner trains, per position, a classifier that predicts the        *)
(*     logged action from the context with weight reward / propensity.        *)
(*   - QLearner trains, per position, the reward regression of module         *)
(*     Nuisance with the uniform policy as evaluation policy.                 *)
(*   - Scores become a deterministic policy (the best action), a stochastic   *)
(*     one (softmax at temperature tau) or a ranking (Plackett-Luce at tau    *)
(*     over the scores averaged over positions).                              *)
EXTENDS Nuisance
\* the log as the learner must read it: uniform propensities when none are given
WithPs(log, nops, K) == IF nops THEN [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.ps = RDiv("1", K)]] ELSE log
WithUniform(log, K, L) == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.pi = [a \in 1 .. K |-> [p \in 1 .. L |-> RDiv("1", K)]]]]
IpwRows(log, p) == {[r |-> i, x |-> log[i].x, y |-> log[i].a, w |-> RDiv(log[i].r, log[i].ps)] : i \in {j \in Rounds(log) : log[j].p = p}}
QRows(log, emb, method, p) == RegRows(log, emb, method, Rounds(log), p)
\* ------------------------------------------------ scores of a fitted classifier
IndexOf(s, v) == CHOOSE j \in 1 .. Len(s) : s[j] = v
Known(par, a) == \E j \in 1 .. Len(par.cls) : par.cls[j] = a
ClassProb(par, x, a) ==
  IF ~Known(par, a) THEN "0"
  ELSE LET e == RSeq([j \in 1 .. Len(par.cls) |-> RExp(Affine(par.b[j], par.c[j], x))]) IN RDiv(e[IndexOf(par.cls, a)], RSum(e))
\* ------------------------------------------------------- from scores to policies
\* s: sequence of scores, one per action
IsBest(s, a) == \A b \in 1 .. Len(s) : RLe(s[b], s[a])
TopScore(s) == s[CHOOSE a \in 1 .. Len(s) : IsBest(s, a)]
\* numerically safe: the best action has exponent zero
Weights(s, tau) == LET m == TopScore(s) IN RSeq([a \in 1 .. Len(s) |-> RTrim(RExp(RDiv(RSub(s[a], m), tau)))])
SoftmaxAt(s, tau) == LET w == Weights(s, tau)
                         t == RTrim(RSum(w)) IN RSeq([a \in 1 .. Len(s) |-> RDiv(w[a], t)])
MeanOver(rows) == RSeq([a \in 1 .. Len(rows) |-> RDiv(RSum(rows[a]), Len(rows[a]))])
\* Plackett-Luce: the next action is drawn by weight among those not ranked yet
Ranked(r) == {r[j] : j \in 1 .. Len(r)}
\* (the weights are taken relative to the best of them, so that none but negligible ones vanish)
TopRest(s, r) == LET rest == (1 .. Len(s)) \ Ranked(r) IN s[CHOOSE a \in rest : \A b \in rest : RLe(s[b], s[a])]
RestWeights(s, tau, r) == LET m == TopRest(s, r) IN RSeq([a \in 1 .. Len(s) |-> IF a \in Ranked(r) THEN "0" ELSE RTrim(RExp(RDiv(RSub(s[a], m), tau)))])
NextProbs(s, tau, r) == LET w == RestWeights(s, tau, r)
                            t == RTrim(RSum(w)) IN RSeq([a \in 1 .. Len(s) |-> RDiv(w[a], t)])
RECURSIVE RankProb(_, _, _)
RankProb(s, tau, r) == IF r = <<>> THEN "1" ELSE LET h == SubSeq(r, 1, Len(r) - 1) IN RMul(RankProb(s, tau, h), NextProbs(s, tau, h)[r[Len(r)]])
=============================================================================
