------------------------------ MODULE CheckC20 ------------------------------
EXTENDS JudgeBase, FiniteSetsExt, SynthLog
At(s, i) == s \o ToString(i)
(* ------------------------------------------------ a batch of logged rounds *)
Supp(row) == {a \in 1 .. Len(row) : RLt(0, row[a])}
Near(x, y) == RNear(x, y, Tol)
RowNear(r, s) == Len(r) = Len(s) /\ \A a \in 1 .. Len(r) : Near(r[a], s[a])
WantEr(o, i) == CASE o.law = "binary" -> o.loc[i]
                  [] o.law = "truncated" -> RSeq([a \in 1 .. o.K |-> TruncMeanAt(o.loc[i][a], o.sd)])
                  [] OTHER -> o.er[i]
Sizes(o) == [k \in 1 .. Len(o.betas) |-> Cardinality({i \in 1 .. o.n : o.strat[i] = k})]
RowOk(o, i) ==
  LET row == o.pib[i]
      S == IF o.nd = 0 THEN 1 .. o.K ELSE Supp(row)
      lg == IF o.own THEN o.er[i] ELSE o.lg[i]
      k == o.strat[i]
      a == o.act[i] + 1
  IN IF ~RowNear(o.er[i], WantEr(o, i)) THEN At("expected reward is not the mean of the reward distribution, round ", i)
     ELSE IF Len(row) # o.K \/ (o.nd > 0 /\ Cardinality(S) # o.K - o.nd) THEN At("wrong number of supported actions, round ", i)
     ELSE IF ~RowNear(row, Softmax(lg, o.betas[k], S)) THEN At("logging policy is not the softmax of beta times the logits, round ", i)
     ELSE IF a \notin S THEN At("logged action outside the support, round ", i)
     ELSE IF ~Near(o.ps[i], row[a]) THEN At("propensity is not the policy's probability of the logged action, round ", i)
     ELSE IF o.multi /\ ~RowNear(o.pav[i], Mixture(lg, o.betas, o.rhos, S)) THEN At("average policy is not the mixture of the loggers, round ", i)
     ELSE IF o.multi /\ ~Near(o.psav[i], o.pav[i][a]) THEN At("average propensity is not the mixture's probability of the logged action, round ", i)
     ELSE IF o.law = "binary" /\ ~(REq(o.rew[i], 0) \/ REq(o.rew[i], 1)) THEN At("binary reward outside {0, 1}, round ", i)
     ELSE IF o.law = "truncated" /\ ~RLe(0, o.rew[i]) THEN At("continuous reward below its minimum, round ", i)
     ELSE IF ~RFin(o.rew[i]) THEN At("reward is not a number, round ", i)
     ELSE "ok"
(* sampling: martingale sums.  g(i) is a 0/1 or sign weight known before round i is drawn *)
G(o, g, i) == CASE g[1] = "one" -> 1
                [] g[1] = "ctx" -> o.sgn[i]
                [] g[1] = "prev" -> IF o.prev[i] = g[2] THEN 1 ELSE 0
                [] g[1] = "lag" -> IF i > 1 /\ o.act[i - 1] = g[2] THEN 1 ELSE 0
                [] g[1] = "act" -> IF o.act[i] = g[2] THEN 1 ELSE 0
                [] g[1] = "str" -> IF o.strat[i] = g[2] THEN 1 ELSE 0
                [] g[1] = "res" -> o.pres[i]
                [] g[1] = "emb" -> IF o.emb[i][1] = g[2] THEN 1 ELSE 0
Signed(g, x) == IF g = 1 THEN x ELSE IF g = 0 THEN "0" ELSE RNeg(x)
SumG(o, g, d) == RSum([i \in 1 .. Len(d) |-> Signed(G(o, g, i), d[i])])
VarG(o, g, v) == RSum([i \in 1 .. Len(v) |-> IF G(o, g, i) = 0 THEN "0" ELSE v[i]])
Past(o) == {<<"one", 0>>, <<"ctx", 0>>} \cup {<<"lag", a>> : a \in 0 .. o.K - 1} \cup (IF o.prev = <<>> THEN {} ELSE {<<"prev", a>> : a \in 0 .. o.K - 1} \cup {<<"res", 0>>})
           \cup (IF o.multi THEN {<<"str", k>> : k \in 1 .. Len(o.betas)} ELSE {})
ActSamp(o, a) == LET d == RSeq([i \in 1 .. o.n |-> RSub(IF o.act[i] = a - 1 THEN 1 ELSE 0, o.pib[i][a])])
                     v == RSeq([i \in 1 .. o.n |-> RMul(o.pib[i][a], RSub(1, o.pib[i][a]))]) IN
  {g \in Past(o) : ~Within(SumG(o, g, d), VarG(o, g, v))}
Mean(o, i) == o.er[i][o.act[i] + 1]
RewVar(o, m) == IF o.law = "binary" THEN RMul(m, RSub(1, m)) ELSE "1"
Scale(o) == IF o.law = "binary" THEN "1" ELSE o.sd
RewSamp(o, m, extra) ==
  LET d == RSeq([i \in 1 .. o.n |-> RDiv(RSub(o.rew[i], m[i]), Scale(o))])
      v == RSeq([i \in 1 .. o.n |-> RewVar(o, m[i])]) IN
  {g \in Past(o) \cup extra : ~Within(SumG(o, g, d), VarG(o, g, v))}
Sampling(o) ==
  FirstBad([a \in 1 .. o.K |-> LET b == ActSamp(o, a) IN IF b = {} THEN "ok" ELSE "actions are not drawn from the reported policy: action " \o ToString(a - 1) \o " given " \o ToString(b)]
    \o <<IF o.law = "embedded" THEN "ok" ELSE LET b == RewSamp(o, RSeq([i \in 1 .. o.n |-> Mean(o, i)]), {<<"act", a>> : a \in 0 .. o.K - 1}) IN
         IF b = {} THEN "ok" ELSE "rewards do not have the reported mean, given " \o ToString(b)>>)
Shape(o) == IF o.nact # o.K \/ o.nround # o.n \/ Len(o.act) # o.n \/ Len(o.rew) # o.n \/ Len(o.pib) # o.n \/ Len(o.er) # o.n \/ Len(o.ps) # o.n THEN "sizes of the log disagree"
  ELSE IF o.acx # o.acg THEN "the log does not carry the action contexts"
  ELSE IF ~o.multi /\ ~o.nopos THEN "the log states positions it does not have"
  ELSE IF \E i \in 1 .. o.n : o.act[i] \notin 0 .. o.K - 1 THEN "logged action is not an action"
  ELSE IF o.multi /\ ~(\A i \in 1 .. o.n : o.strat[i] \in 1 .. Len(o.betas)) THEN "stratum index out of range"
  ELSE IF o.multi /\ ~SizesOk(Sizes(o), o.n, o.rhos) THEN "strata sizes " \o ToString(Sizes(o)) \o " do not follow the ratios"
  ELSE "ok"
Upto(o) == IF o.n < 150 THEN o.n ELSE 150
(* batch: err, K, n, nd, law, sd, betas, rhos, multi, strat, own, lg, loc, er, pib, pav, ps, psav, act, rew, prev, pres, sgn, stat *)
Batch(o) == IF o.err # "" THEN "generation raised: " \o o.err
  ELSE LET s == Shape(o) IN IF s # "ok" THEN s
  ELSE FirstBad([i \in 1 .. Upto(o) |-> RowOk(o, i)] \o <<IF o.stat THEN Sampling(o) ELSE "ok">>)
(* embedding variant: additionally C, D, qxe, pea, emb, w (weights of the observed dimensions), full, nirr *)
PeRow(o, a, d) == [c \in 1 .. o.C |-> o.pea[a][c][d]]
EmbMean(o, i) == RSum([d \in 1 .. o.D |-> RMul(o.w[d], o.qxe[i][o.emb[i][d] + 1][d])])
EmbRow(o, i) ==
  IF \E d \in 1 .. o.D : o.emb[i][d] \notin 0 .. o.C - 1 THEN At("embedding is not a category, round ", i)
  ELSE IF o.bin /\ ~(REq(o.rew[i], 0) \/ REq(o.rew[i], 1)) THEN At("binary reward outside {0, 1}, round ", i)
  ELSE IF o.full /\ \E a \in 1 .. o.K : ~RNear(o.er[i][a], EmbedReward(o.w, o.qxe[i], o.pea[a]), "1/10000000") THEN At("expected reward is not the embedding-weighted reward, round ", i)
  ELSE "ok"
EmbSamp(o, d, c) ==
  LET m == RSeq([i \in 1 .. o.n |-> o.pea[o.act[i] + 1][c][d]])
      dv == RSeq([i \in 1 .. o.n |-> RSub(IF o.emb[i][d] = c - 1 THEN 1 ELSE 0, m[i])])
      v == RSeq([i \in 1 .. o.n |-> RMul(m[i], RSub(1, m[i]))])
      b == {g \in Past(o) \cup {<<"act", a>> : a \in 0 .. o.K - 1} \cup (IF d > 1 THEN {<<"emb", e>> : e \in 0 .. o.C - 1} ELSE {}) : ~Within(SumG(o, g, dv), VarG(o, g, v))}
  IN IF b = {} THEN "ok" ELSE "embeddings are not drawn from the reported distribution, given " \o ToString(b)
Embed(o) == LET b == Batch(o) IN IF b # "ok" THEN b
  ELSE IF \E a \in 1 .. o.K : \E d \in 1 .. o.D : ~Near(RSum(PeRow(o, a, d)), 1) \/ \E c \in 1 .. o.C : ~RLe(0, o.pea[a][c][d]) THEN "embedding distribution is not a distribution"
  ELSE IF o.full /\ (~RNear(RSum(o.w), IF o.none THEN 0 ELSE 1, "1/10000000") \/ \E d \in 1 .. o.D : RLt(o.w[d], "-1/10000000") \/ (d <= o.nirr /\ RLt("1/10000000", o.w[d]))) THEN "no nonnegative weights of the relevant dimensions explain the expected reward"
  ELSE FirstBad([i \in 1 .. Upto(o) |-> EmbRow(o, i)]
    \o (IF ~o.stat THEN <<>> ELSE [k \in 1 .. o.D * o.C |-> EmbSamp(o, ((k - 1) \div o.C) + 1, ((k - 1) % o.C) + 1)]
        \o <<IF ~o.full THEN "ok" ELSE
              LET o2 == [o EXCEPT !.law = IF o.bin THEN "binary" ELSE "normal"]
                  bad == RewSamp(o2, RSeq([i \in 1 .. o.n |-> EmbMean(o, i)]), {<<"act", a>> : a \in 0 .. o.K - 1} \cup {<<"emb", e>> : e \in 0 .. o.C - 1}) IN
              IF bad = {} THEN "ok" ELSE "rewards do not have the mean of their embedding, given " \o ToString(bad)>>))
\* given context and action alone, whether or not the dimensions that matter are observed
MargVar(o, i) == IF o.bin THEN RMul(Mean(o, i), RSub(1, Mean(o, i)))
  ELSE RAdd("1", RDiv(RSum([d \in 1 .. o.D |-> LET p == PeRow(o, o.act[i] + 1, d)
                                                  m == RSum([c \in 1 .. o.C |-> RMul(p[c], o.qxe[i][c][d])]) IN
                        RMul(RMul(o.w[d], o.w[d]), RSum([c \in 1 .. o.C |-> RMul(p[c], RMul(RSub(o.qxe[i][c][d], m), RSub(o.qxe[i][c][d], m)))]))]), RMul(Scale(o), Scale(o))))
MargSamp(o) == LET dv == RSeq([i \in 1 .. o.n |-> RDiv(RSub(o.rew[i], Mean(o, i)), IF o.bin THEN "1" ELSE Scale(o))])
                   v == RSeq([i \in 1 .. o.n |-> MargVar(o, i)]) IN
  {g \in Past(o) \cup {<<"act", a>> : a \in 0 .. o.K - 1} : ~Within(SumG(o, g, dv), VarG(o, g, v))}
EmbedAll(o) == LET e == Embed(o) IN IF e # "ok" \/ ~o.stat \/ ~(o.bin \/ o.full) THEN e
  ELSE LET b == MargSamp(o) IN IF b = {} THEN "ok" ELSE "rewards do not have the reported mean of their context and action, given " \o ToString(b)
(* --------------------------------------------- built-in reward functions *)
(* fn: deg, z, sparse, link, x, g (contexts and action contexts), per, cc, ac, ca, out *)
FnRaw(o) == LET f == RSeq([i \in 1 .. Len(o.x) |-> Poly(o.x[i], o.deg)])
                h == RSeq([a \in 1 .. Len(o.g) |-> Poly(o.g[a], o.deg)]) IN
  RSeq([i \in 1 .. Len(o.x) |-> RSeq([a \in 1 .. Len(o.g) |->
     IF o.per THEN RTrim(RawReward(f[i], h[a], o.cc[i], o.ac[i], o.ca[i])) ELSE RTrim(RawReward(f[i], h[a], o.cc, o.ac, o.ca))])])
Logit(p) == RLog(RDiv(p, RSub(1, p)))
FnTable(o) == IF o.link THEN RSeq([i \in 1 .. Len(o.out) |-> RSeq([a \in 1 .. Len(o.out[i]) |-> Logit(o.out[i][a])])]) ELSE o.out
FnTol == "1/1000000"
\* all coefficients of one kind are equal: the features kept are some of the polynomial ones
SumOf(f, S) == LET s == SetToSeq(S) IN RSum([k \in 1 .. Len(s) |-> f[s[k]]])
SparseOk(o, t) ==
  LET f == RSeq([i \in 1 .. Len(o.x) |-> Poly(o.x[i], o.deg)])
      h == RSeq([a \in 1 .. Len(o.g) |-> Poly(o.g[a], o.deg)])
      kf == Len(o.cc)
      kh == Len(o.ac)
      u == IF o.only = "ctx" THEN o.cc[1] ELSE IF o.only = "act" THEN o.ac[1] ELSE o.ca[1][1]
      hits(i, a, S, T) == RNear(t[i][a], RMul(o.deg, RMul(u, RMul(IF o.only = "act" THEN "1" ELSE SumOf(f[i], S), IF o.only = "ctx" THEN "1" ELSE SumOf(h[a], T)))), FnTol)
  IN IF kf < 1 \/ kf >= Len(f[1]) \/ kh < 1 \/ kh >= Len(h[1]) THEN "a sparse function does not drop some features and keep some"
     ELSE IF \E S \in (IF o.only = "act" THEN {{}} ELSE kSubset(kf, 1 .. Len(f[1]))), T \in (IF o.only = "ctx" THEN {{}} ELSE kSubset(kh, 1 .. Len(h[1]))) :
             \A i \in 1 .. Len(t) : \A a \in 1 .. Len(t[i]) : hits(i, a, S, T) THEN "ok"
     ELSE "sparse reward function is not the degree times the sum over some of the polynomial features"
FnOk(o) ==
  IF o.err # "" THEN "reward function raised: " \o o.err
  ELSE IF o.link /\ \E i \in 1 .. Len(o.out) : \E a \in 1 .. Len(o.out[i]) : ~(RLt(0, o.out[i][a]) /\ RLt(o.out[i][a], 1)) THEN "binary expected reward is not a probability"
  ELSE LET t == FnTable(o) IN
  IF o.z /\ ~(RNear(TableMean(t), 0, FnTol) /\ RNear(TableVar(t), o.deg * o.deg, FnTol)) THEN "standardised logits do not have mean zero and the degree as standard deviation"
  ELSE IF o.sparse /\ o.only = "" THEN "ok"
  ELSE IF o.sparse THEN SparseOk(o, t)
  ELSE LET raw == FnRaw(o)
           want == IF o.z THEN Standardise(raw) ELSE raw IN
       IF \E i \in 1 .. Len(t) : \E a \in 1 .. Len(t[i]) : ~RNear(t[i][a], RMul(o.deg, want[i][a]), FnTol) THEN "reward function is not the degree times the (standardised) sum of context, action and interaction terms"
       ELSE "ok"
(* behaviour policy functions: standardised; the last context is the midpoint of the first two *)
BpolOk(o) == IF o.err # "" THEN "behaviour function raised: " \o o.err
  ELSE IF ~(RNear(TableMean(o.out), 0, FnTol) /\ RNear(TableVar(o.out), o.deg * o.deg, FnTol)) THEN "logits do not have mean zero and the degree as standard deviation"
  ELSE IF o.deg = 1 /\ \E a \in 1 .. Len(o.out[1]) : ~RNear(RMul(2, o.out[Len(o.out)][a]), RAdd(o.out[1][a], o.out[2][a]), FnTol) THEN "linear logits are not affine in the context"
  ELSE "ok"
ValueOk(o) == IF o.err # "" THEN "policy value raised: " \o o.err
  ELSE IF Near(o.value, PolicyValue(o.q, o.pi)) THEN "ok" ELSE "policy value is not the mean of the probability-weighted expected rewards"
(* rewards sampled for given contexts and actions: law, sd, loc, act, rew, rew2 *)
SampleOk(o) ==
  IF o.err # "" THEN "reward sampling raised: " \o o.err
  ELSE IF Len(o.rew) # o.n THEN "one reward per round expected"
  ELSE IF \E i \in 1 .. o.n : IF o.law = "binary" THEN ~(REq(o.rew[i], 0) \/ REq(o.rew[i], 1)) ELSE ~RLe(0, o.rew[i]) THEN "sampled reward outside its domain"
  ELSE LET m == RSeq([i \in 1 .. o.n |-> IF o.law = "binary" THEN o.loc[i][o.act[i] + 1] ELSE TruncMeanAt(o.loc[i][o.act[i] + 1], o.sd)])
           b == RewSamp(o, m, {<<"act", a>> : a \in 0 .. o.K - 1}) IN
  IF b = {} THEN "ok" ELSE "sampled rewards do not have their expected mean, given " \o ToString(b)
(* --------------------------------------------------- continuous actions *)
(* cont: n, unif, loc, sd, lo, hi, act, ps, rew, er (reported), want (reward function at the logged actions, or free), noise, stat, sgn, prev *)
FreeReward(a) == RSub(RMul(2, RPowR(RAbs(a), "3/2")), RMul(5, a))
ContWant(o, i) == IF o.free THEN FreeReward(o.act[i]) ELSE o.want[i]
ContPdf(o, i) == IF o.unif THEN RDiv(1, RSub(o.hi, o.lo)) ELSE TruncPdf(o.act[i], o.lo, o.hi, o.loc[i], o.sd)
ContCdf(o, i) == IF o.unif THEN RDiv(RSub(o.act[i], o.lo), RSub(o.hi, o.lo)) ELSE TruncCdf(o.act[i], o.lo, o.hi, o.loc[i], o.sd)
ContRow(o, i) ==
  IF ~RFin(o.act[i]) \/ (o.lo # "-inf" /\ RLt(o.act[i], o.lo)) \/ (o.hi # "inf" /\ RLt(o.hi, o.act[i])) THEN At("action outside its bounds, round ", i)
  ELSE IF ~RNear(o.ps[i], ContPdf(o, i), "1/10000000") THEN At("propensity is not the density of the logged action, round ", i)
  ELSE IF ~Near(o.er[i], ContWant(o, i)) THEN At("expected reward is not the reward function at the logged action, round ", i)
  ELSE IF ~RFin(o.rew[i]) THEN At("reward is not a number, round ", i)
  ELSE IF REq(o.noise, 0) /\ ~Near(o.rew[i], o.er[i]) THEN At("noiseless reward differs from its expectation, round ", i)
  ELSE "ok"
CG(o, g, i) == CASE g[1] = "one" -> 1 [] g[1] = "ctx" -> o.sgn[i] [] g[1] = "prev" -> o.prev[i] [] g[1] = "pres" -> o.pres[i] [] g[1] = "own" -> o.cur[i]
CSum(o, g, d) == RSum([i \in 1 .. o.n |-> Signed(CG(o, g, i), d[i])])
ContSamp(o) ==
  LET u == RSeq([i \in 1 .. o.n |-> ContCdf(o, i)])
      gs == {<<"one">>, <<"ctx">>} \cup (IF o.prev = <<>> THEN {} ELSE {<<"prev">>, <<"pres">>})
      bad == {x \in gs \X {"1/4", "1/2", "3/4"} : LET d == RSeq([i \in 1 .. o.n |-> RSub(IF RLe(u[i], x[2]) THEN 1 ELSE 0, x[2])]) IN
               ~Within(CSum(o, x[1], d), RMul(o.n, RMul(x[2], RSub(1, x[2]))))}
      r == RSeq([i \in 1 .. o.n |-> RDiv(RSub(o.rew[i], o.er[i]), o.noise)])
      badr == IF REq(o.noise, 0) THEN {} ELSE {g \in gs \cup {<<"own">>} : ~Within(CSum(o, g, r), o.n)}
  IN IF bad # {} THEN "actions are not drawn from the reported density, given " \o ToString(bad)
     ELSE IF badr # {} THEN "rewards do not have the reported mean, given " \o ToString(badr) ELSE "ok"
ContOk(o) == IF o.err # "" THEN "generation raised: " \o o.err
  ELSE IF o.nround # o.n \/ Len(o.act) # o.n \/ Len(o.ps) # o.n \/ Len(o.rew) # o.n \/ Len(o.er) # o.n THEN "sizes of the log disagree"
  ELSE IF ~Near(o.value, RDiv(RSum([j \in 1 .. Len(o.vals) |-> IF o.free THEN FreeReward(o.vact[j]) ELSE o.vals[j]]), Len(o.vals))) THEN "policy value is not the mean reward-function value of the given actions"
  ELSE FirstBad([i \in 1 .. Upto(o) |-> ContRow(o, i)] \o <<IF o.stat THEN ContSamp(o) ELSE "ok">>)
Verdict(o) == CASE o.k = "batch" -> Batch(o) [] o.k = "embed" -> EmbedAll(o) [] o.k = "fn" -> FnOk(o) [] o.k = "bpol" -> BpolOk(o)
                [] o.k = "value" -> ValueOk(o) [] o.k = "sample" -> SampleOk(o) [] o.k = "cont" -> ContOk(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
