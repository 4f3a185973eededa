------------------------------ MODULE CheckC15 ------------------------------
(* Records                                                                    *)
(*  "life": [lrn ("ipw", "q"), K, L, log, emb, method, clf, nops, new, tau,   *)
(*     steps], a step being one fit followed by queries on the contexts new:  *)
(*     [fits, score, pred, proba, slate, again, err]; a step may have its own *)
(*     log.  Tables are context -> action -> position.                        *)
(*  "answers": a learner with real base models or a network: [K, L, score,    *)
(*     pred, proba, slate, again, tau, tol, err, hard], judged on its own     *)
(*     scores.                                                                *)
(*  "frequencies": one context many times: [K, L, N, score (action ->         *)
(*     position), tau, seen: sequence of [rank, count], err].                 *)
(*  "sampling": [K, L, score, tau, slate, err], many contexts.                *)
EXTENDS JudgeBase, Learner
Near(a, b) == RNear(a, b, Tol)
FitAt(log, st, p) == {k \in 1 .. Len(st.fits) : st.fits[k].rows # <<>> /\ \A j \in 1 .. Len(st.fits[k].rows) : st.fits[k].rows[j].r > 0 /\ log[st.fits[k].rows[j].r].p = p}
Exact(rows, want) == /\ Len(rows) = Cardinality(want)
                     /\ \A w \in want : \E j \in 1 .. Len(rows) : rows[j].r = w.r /\ rows[j].x = w.x /\ REq(rows[j].y, w.y) /\ Near(rows[j].w, w.w)
Want(o, log, p) == LET l == WithPs(log, o.nops, o.K) IN
  IF o.lrn = "ipw" THEN IpwRows(l, p) ELSE QRows(WithUniform(l, o.K, o.L), o.emb, o.method, p)
Score(o, par, x, a) == IF o.lrn = "ipw" THEN ClassProb(par, x, a)
                       ELSE LET z == RegPredict(par, x, o.emb, a) IN IF o.clf THEN Sigmoid(z) ELSE z
Trained(o, st) ==
  LET log == st.log IN
  IF \E k \in 1 .. Len(st.fits) : \A p \in 0 .. o.L - 1 : k \notin FitAt(log, st, p) THEN "a base model was trained on rows that are not rounds of a single position"
  ELSE IF \E p \in 0 .. o.L - 1 : Cardinality(FitAt(log, st, p)) # 1 THEN "not exactly one base model trained per position"
  ELSE IF \E p \in 0 .. o.L - 1 : \E k \in FitAt(log, st, p) : ~Exact(st.fits[k].rows, Want(o, log, p)) THEN "training rows are not the position's rounds with their weights"
  ELSE IF \E p \in 0 .. o.L - 1 : \E k \in FitAt(log, st, p) : \E i \in 1 .. Len(o.new), a \in 0 .. o.K - 1 : ~Near(st.score[i][a + 1][p + 1], Score(o, st.fits[k].par, o.new[i], a))
       THEN "a score is not that of its position's model for its context and action"
  ELSE "ok"
\* ----------------------------------------------- answers given the learner's scores
Shape(t, n, K, L) == Len(t) = n /\ \A i \in 1 .. n : Len(t[i]) = K /\ \A a \in 1 .. K : Len(t[i][a]) = L
Col(t, i, p) == [a \in 1 .. Len(t[i]) |-> t[i][a][p]]
Finite(t) == \A i \in 1 .. Len(t) : \A a \in 1 .. Len(t[i]) : \A p \in 1 .. Len(t[i][a]) : RFin(t[i][a][p])
OneHot(v) == /\ \A a \in 1 .. Len(v) : v[a] \in {"0", "1"}
             /\ Cardinality({a \in 1 .. Len(v) : v[a] = "1"}) = 1
Chosen(v) == CHOOSE a \in 1 .. Len(v) : v[a] = "1"
Slate(t, i, L) == [p \in 1 .. L |-> Chosen(Col(t, i, p))]
SlateOK(t, i, L) == (\A p \in 1 .. L : OneHot(Col(t, i, p))) /\ \A p, q \in 1 .. L : p # q => Chosen(Col(t, i, p)) # Chosen(Col(t, i, q))
\* best up to the rounding the learner computes with
NearBest(s, a, tol) == RLe(TopScore(s), RAdd(s[a], tol))
Distinct(s, gap) == \A a, b \in 1 .. Len(s) : a # b => RLe(gap, RAbs(RSub(s[a], s[b])))
Sorted(s, r) == \A j \in 1 .. Len(r) : \A b \in 1 .. Len(s) : b \notin {r[q] : q \in 1 .. j} => RLt(s[b], s[r[j]])
Answers(o, n, K, L, LP, st, tol) ==
  IF ~Shape(st.score, n, K, LP) \/ ~Shape(st.pred, n, K, LP) \/ ~Shape(st.slate, n, K, L) \/ (st.proba # <<>> /\ ~Shape(st.proba, n, K, LP)) THEN "malformed answer"
  ELSE IF ~Finite(st.score) THEN "a score is not a number"
  ELSE IF ~\A i \in 1 .. n : \A p \in 1 .. LP : OneHot(Col(st.pred, i, p)) THEN "the deterministic policy does not choose exactly one action"
  ELSE IF ~\A i \in 1 .. n : \A p \in 1 .. LP : NearBest(Col(st.score, i, p), Chosen(Col(st.pred, i, p)), tol) THEN "the deterministic policy does not choose the action of highest score"
  ELSE IF st.proba # <<>> /\ ~\A i \in 1 .. n : \A p \in 1 .. LP : LET w == SoftmaxAt(Col(st.score, i, p), o.tau) IN \A a \in 1 .. K : RNear(st.proba[i][a][p], w[a], tol)
       THEN "choice probabilities are not the softmax of the scores at the given temperature"
  ELSE IF ~\A i \in 1 .. n : SlateOK(st.slate, i, L) THEN "a sampled ranking does not put exactly one action in each position, each at most once"
  ELSE IF st.again # st.slate THEN "sampling again with the same seed gives another ranking"
  ELSE IF \E i \in 1 .. n : LET m == MeanOver(st.score[i]) IN Distinct(m, RMul(80, o.tau)) /\ ~Sorted(m, Slate(st.slate, i, L)) THEN "at a low temperature the sampled ranking does not follow the scores"
  ELSE "ok"
Life(o) == FirstBad([j \in 1 .. Len(o.steps) |-> LET st == o.steps[j] IN
  IF st.err # "" THEN o.lrn \o ": raised on valid data: " \o st.err
  ELSE LET v == Answers(o, Len(o.new), o.K, o.L, o.L, st, Tol) IN
       IF v # "ok" THEN o.lrn \o ": " \o v ELSE LET t == Trained(o, st) IN IF t = "ok" THEN t ELSE o.lrn \o ": " \o t])
Alone(o) ==
  IF o.err # "" THEN o.lrn \o ": raised on valid data: " \o o.err
  ELSE LET v == Answers(o, o.n, o.K, o.L, o.LP, o, o.tol) IN IF v = "ok" THEN v ELSE o.lrn \o ": " \o v
\* -------------------------------------------------------- Plackett-Luce sampling
\* a bounded martingale leaves Freedman's bound with probability 1e-9 (s: sum, v: predictable variance, steps at most 1)
Within(s, v) == LET t == RAbs(s) IN RLe(t, 14) \/ RLe(RSq(RSub(t, 14)), RMul("85/2", v))
\* betting on action a in each position, once evenly and once by how high its score stands among the actions
Rank01(s, a) == RDiv(Cardinality({b \in 1 .. Len(s) : RLt(s[b], s[a])}), Len(s))
Bet(kind, s, a) == IF kind = "even" THEN "1" ELSE RSub(RMul(2, Rank01(s, a)), 1)
Sampling(o) ==
  IF o.err # "" THEN o.lrn \o ": raised on valid data: " \o o.err
  ELSE IF Len(o.slate) # Len(o.score) \/ ~\A i \in 1 .. Len(o.slate) : SlateOK(o.slate, i, o.L) THEN o.lrn \o ": a sampled ranking does not put exactly one action in each position, each at most once"
  ELSE IF ~Finite(o.score) THEN o.lrn \o ": a score is not a number"
  ELSE LET N == Len(o.score)
           m == RSeq([i \in 1 .. N |-> MeanOver(o.score[i])])
           sl == RSeq([i \in 1 .. N |-> Slate(o.slate, i, o.L)])
           P == RSeq([i \in 1 .. N |-> RSeq([p \in 1 .. o.L |-> RSeq([a \in 1 .. o.K |-> RTrim(NextProbs(m[i], o.tau, SubSeq(sl[i], 1, p - 1))[a])])])])
           Sum(kind, a) == RSum([i \in 1 .. N |-> RMul(Bet(kind, m[i], a), RSum([p \in 1 .. o.L |-> RSub(IF sl[i][p] = a THEN "1" ELSE "0", P[i][p][a])]))])
           Var(kind, a) == RSum([i \in 1 .. N |-> RMul(RSq(Bet(kind, m[i], a)), RSum([p \in 1 .. o.L |-> RMul(P[i][p][a], RSub("1", P[i][p][a]))]))])
           \* by score: over all actions at once, position by position
           AtPos(p) == RSum([i \in 1 .. N |-> RSub(Bet("rank", m[i], sl[i][p]), RSum([a \in 1 .. o.K |-> RMul(P[i][p][a], Bet("rank", m[i], a))]))])
           VarPos(p) == RSum([i \in 1 .. N |-> RSub(RSum([a \in 1 .. o.K |-> RMul(P[i][p][a], RSq(Bet("rank", m[i], a)))]), RSq(RSum([a \in 1 .. o.K |-> RMul(P[i][p][a], Bet("rank", m[i], a))])))])
       IN IF /\ \A a \in 1 .. o.K : Within(Sum("even", a), Var("even", a))
             /\ \A p \in 1 .. o.L : Within(RDiv(AtPos(p), 2), RDiv(VarPos(p), 4))
          THEN "ok" ELSE o.lrn \o ": sampled rankings are not distributed by Plackett-Luce over the scores at the given temperature"
\* one context asked many times: how often each ranking came up
Frequencies(o) ==
  IF o.err # "" THEN o.lrn \o ": raised on valid data: " \o o.err
  ELSE IF ~Finite(<<o.score>>) THEN o.lrn \o ": a score is not a number"
  ELSE LET m == MeanOver(o.score)
           p == RSeq([j \in 1 .. Len(o.seen) |-> RTrim(RankProb(m, o.tau, o.seen[j].rank))]) IN
  IF \E j \in 1 .. Len(o.seen) : Cardinality(Ranked(o.seen[j].rank)) # o.L \/ Len(o.seen[j].rank) # o.L THEN o.lrn \o ": a sampled ranking repeats an action"
  ELSE IF ~REq(RSum([j \in 1 .. Len(o.seen) |-> o.seen[j].count]), o.N) THEN o.lrn \o ": rankings are missing"
  ELSE IF \A j \in 1 .. Len(o.seen) : Within(RSub(o.seen[j].count, RMul(o.N, p[j])), RMul(o.N, RMul(p[j], RSub("1", p[j])))) THEN "ok"
  ELSE o.lrn \o ": rankings do not come up as often as Plackett-Luce over the scores at the given temperature says"
Verdict(o) == CASE o.kind = "frequencies" -> Frequencies(o) [] o.kind = "life" -> Life(o) [] o.kind = "answers" -> Alone(o) [] o.kind = "sampling" -> Sampling(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
