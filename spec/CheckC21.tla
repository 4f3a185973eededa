------------------------------ MODULE CheckC21 ------------------------------
(* kinds: pscore   - propensities and conditional distributions reported for  *)
(*                   given logits and slates                                  *)
(*        feedback - a generated log with its behaviour logits and base rewards*)
(*        truth    - ground-truth values                                      *)
(*        named    - propensities of the optimal/anti-optimal/random policies *)
EXTENDS JudgeBase, SlateData
MaxOf(s) == FoldLeft(LAMBDA x, y : RMax(x, y), "-inf", s)
Wts(lg) == LET m == MaxOf(lg) IN RSeq([a \in 1 .. Len(lg) |-> RExp(RSub(lg[a], m))])
Slot(o, i, l) == (i - 1) * o.L + l
Slate(o, i) == SubSeq(o.act, (i - 1) * o.L + 1, i * o.L)
Near(x, y) == RFin(x) /\ RNear(x, y, "1/1000000000") /\ RLe(RAbs(RSub(x, y)), RAdd("1/1000000000000", RMul("1/10000000", RAbs(y))))
Dupl(s) == \E i, j \in 1 .. Len(s) : i # j /\ s[i] = s[j]
Ps(o, i) ==                                    \* propensities of round i
  LET w == Wts(o.lg[i])
      s == Slate(o, i) IN
  IF \E l \in 1 .. o.L : ~Near(o.casc[Slot(o, i, l)], Cascade(w, s, l, o.fac)) THEN "cascade propensity is not the probability of the slate's prefix"
  ELSE IF \E l \in 1 .. o.L : ~Near(o.ps[Slot(o, i, l)], SlateProb(w, s, o.fac)) THEN "slate propensity is not the joint probability of the slate"
  ELSE IF o.item # <<>> /\ \E l \in 1 .. o.L : ~Near(o.item[Slot(o, i, l)], ItemPos(w, l, s[l], o.fac)) THEN "slot propensity is not the marginal probability of (action, slot)"
  ELSE "ok"
Dist(o, i) ==
  IF o.dist = <<>> THEN "ok" ELSE
  LET w == Wts(o.lg[i])
      s == Slate(o, i) IN
  IF \E l \in 1 .. o.L, a \in 1 .. o.K : ~Near(o.dist[(Slot(o, i, l) - 1) * o.K + a], StepProb(w, Used(s, l, o.fac), a - 1))
  THEN "conditional action distribution is not the policy given the logged prefix" ELSE "ok"
N(o) == Len(o.lg)
PscoreV(o) ==
  IF Len(o.casc) # N(o) * o.L \/ Len(o.ps) # N(o) * o.L \/ (o.item # <<>> /\ Len(o.item) # N(o) * o.L) \/ (o.dist # <<>> /\ Len(o.dist) # N(o) * o.L * o.K)
  THEN "propensities have the wrong length"
  ELSE LET v == FirstBad([i \in 1 .. N(o) |-> Ps(o, i)]) IN IF v # "ok" THEN v ELSE FirstBad([i \in 1 .. N(o) |-> Dist(o, i)])
(* ---------------------------------------------------------------- rewards *)
MatOk(o) == IF IsAdditive(o.st) THEN IF \E a, b \in 1 .. o.K : ~REq(o.M[a][b], o.M[b][a]) THEN "interaction matrix is not symmetric" ELSE "ok" ELSE "ok"
Param(o, i, l) == IF o.ctxfree THEN o.base[i][Slate(o, i)[l] + 1][l] ELSE SlotParam(o, o.base[i], Slate(o, i), l)
Reported(o, i, l) == LET x == Param(o, i, l) IN IF o.binary THEN RMul(Exam(o, l), x) ELSE TruncMean(x)
Rew(o, i, l) == o.rew[Slot(o, i, l)]
RewOk(o, rep, i) ==
  IF \E l \in 1 .. o.L : ~RNear(o.exp[Slot(o, i, l)], rep[i][l], "1/1000000") THEN
    LET l == CHOOSE z \in 1 .. o.L : ~RNear(o.exp[Slot(o, i, z)], rep[i][z], "1/1000000") IN
    "expected reward of round " \o ToString(i) \o " slot " \o ToString(l) \o " is " \o RStr(o.exp[Slot(o, i, l)]) \o ", structure gives " \o RStr(rep[i][l])
  ELSE IF o.binary /\ \E l \in 1 .. o.L : ~(REq(Rew(o, i, l), 0) \/ REq(Rew(o, i, l), 1)) THEN "binary reward outside {0,1}"
  ELSE IF ~o.binary /\ \E l \in 1 .. o.L : ~(RFin(Rew(o, i, l)) /\ RLe(0, Rew(o, i, l))) THEN "continuous reward outside its domain"
  ELSE "ok"
RECURSIVE Disc(_, _, _)
Disc(o, i, l) == IF l = 1 THEN "1" ELSE RMul(Disc(o, i, l - 1), IF REq(Rew(o, i, l - 1), 1) THEN Att(o, l) ELSE 1)
(* observed sum of rewards against their conditional mean given earlier clicks, per slot, 6 sigma *)
MeanOf(o, rep, i, l) == RTrim(IF o.binary THEN RMul(Disc(o, i, l), rep[i][l]) ELSE rep[i][l])
StatOk(o, rep) == IF N(o) < 30 THEN "ok" ELSE FirstBad([l \in 1 .. o.L |->
   LET mm == RSeq([i \in 1 .. N(o) |-> MeanOf(o, rep, i, l)])
       d == RSum([i \in 1 .. N(o) |-> RSub(Rew(o, i, l), mm[i])])
       v == IF o.binary THEN RSum([i \in 1 .. N(o) |-> RTrim(RMul(mm[i], RSub(1, mm[i])))]) ELSE N(o)
   IN IF RLe(RSq(d), RAdd(RMul(36, v), 1)) THEN "ok" ELSE "rewards at slot " \o ToString(l) \o " do not have the stated mean (excess " \o RStr(d) \o " over " \o ToString(N(o)) \o " rounds)"])
(* frequency of each action at each slot against the slot marginals, 6 sigma *)
FreqOk(o, ws) == IF N(o) < 30 THEN "ok" ELSE FirstBad([k \in 1 .. o.L * o.K |->
   LET l == ((k - 1) \div o.K) + 1
       a == (k - 1) % o.K
       p == RSeq([i \in 1 .. N(o) |-> RTrim(ItemPos(ws[i], l, a, o.fac))])
       m == RSum(p)
       v == RSum([i \in 1 .. N(o) |-> RTrim(RMul(p[i], RSub(1, p[i])))])
       c == Cardinality({i \in 1 .. N(o) : o.act[Slot(o, i, l)] = a})
   IN IF RLe(RSq(RSub(c, m)), RAdd(RMul(36, v), 1)) THEN "ok"
      ELSE "action " \o ToString(a) \o " at slot " \o ToString(l) \o " drawn " \o ToString(c) \o " times, policy expects " \o RStr(m)])
(* long logs: martingale sums of rewards and of draws, weighted by what is known before them *)
GoodSum(d, v, g(_)) == LET z == RSum([i \in 1 .. Len(d) |-> IF g(i) THEN d[i] ELSE "0"])
                           y == RSum([i \in 1 .. Len(d) |-> IF g(i) THEN v[i] ELSE "0"]) IN RLe(RSq(z), RAdd(RMul(36, y), 30))
RewardDraws(o, l) ==
  LET mm == RSeq([i \in 1 .. N(o) |-> RTrim(IF o.binary THEN RMul(Disc(o, i, l), o.exp[Slot(o, i, l)]) ELSE o.exp[Slot(o, i, l)])])
      d == RSeq([i \in 1 .. N(o) |-> RTrim(RSub(Rew(o, i, l), mm[i]))])
      v == RSeq([i \in 1 .. N(o) |-> IF o.binary THEN RTrim(RMul(mm[i], RSub(1, mm[i]))) ELSE "1"])
      at(w) == "rewards at slot " \o ToString(l) \o " do not have the stated mean, given " \o w IN
  IF ~GoodSum(d, v, LAMBDA i : TRUE) THEN at("nothing")
  ELSE IF o.binary /\ \E j \in 1 .. l - 1, c \in {0, 1} : ~GoodSum(d, v, LAMBDA i : REq(Rew(o, i, j), c)) THEN at("earlier clicks of the slate")
  ELSE IF \E a \in Acts(o.K) : ~GoodSum(d, v, LAMBDA i : o.act[Slot(o, i, l)] = a) THEN at("its action")
  ELSE IF \E b \in {TRUE, FALSE} : ~GoodSum(d, v, LAMBDA i : i > 1 /\ b = RLt(0, RSub(Rew(o, i - 1, l), o.exp[Slot(o, i - 1, l)]))) THEN at("the round before")
  ELSE IF o.half > 0 /\ \E b \in {TRUE, FALSE} : ~GoodSum(d, v, LAMBDA i : i > o.half /\ b = RLt(0, d[i - o.half])) THEN at("the batch before")
  ELSE IF \E b \in {TRUE, FALSE} : ~GoodSum(d, v, LAMBDA i : o.sgn[i] = b) THEN at("the context")
  ELSE "ok"
ActionDraws(o, ws, l, a) ==
  LET p == RSeq([i \in 1 .. N(o) |-> RTrim(StepProb(ws[i], Used(Slate(o, i), l, o.fac), a))])
      d == RSeq([i \in 1 .. N(o) |-> RTrim(RSub(IF o.act[Slot(o, i, l)] = a THEN 1 ELSE 0, p[i]))])
      v == RSeq([i \in 1 .. N(o) |-> RTrim(RMul(p[i], RSub(1, p[i])))])
      at(w) == "action " \o ToString(a) \o " at slot " \o ToString(l) \o " is not drawn with its probability, given " \o w IN
  IF ~GoodSum(d, v, LAMBDA i : TRUE) THEN at("nothing")
  ELSE IF \E j \in 1 .. l - 1, b \in Acts(o.K) : ~GoodSum(d, v, LAMBDA i : o.act[Slot(o, i, j)] = b) THEN at("the slate's prefix")
  ELSE IF \E b \in Acts(o.K), j \in 1 .. o.L : ~GoodSum(d, v, LAMBDA i : i > 1 /\ o.act[Slot(o, i - 1, j)] = b) THEN at("the round before")
  ELSE IF o.half > 0 /\ \E b \in Acts(o.K) : ~GoodSum(d, v, LAMBDA i : i > o.half /\ o.act[Slot(o, i - o.half, l)] = b) THEN at("the batch before")
  ELSE IF \E b \in {TRUE, FALSE} : ~GoodSum(d, v, LAMBDA i : o.sgn[i] = b) THEN at("the context")
  ELSE "ok"
ShapeOk(o) ==
  IF Len(o.act) # N(o) * o.L \/ Len(o.rew) # N(o) * o.L \/ Len(o.exp) # N(o) * o.L THEN "log arrays have the wrong length"
  ELSE IF \E k \in 1 .. Len(o.act) : o.act[k] \notin Acts(o.K) \/ o.pos[k] # (k - 1) % o.L \/ o.sid[k] # (k - 1) \div o.L THEN "slate ids, positions or actions are malformed"
  ELSE IF ~o.fac /\ \E i \in 1 .. N(o) : Dupl(Slate(o, i)) THEN "a slate repeats an action"
  ELSE "ok"
FeedbackV(o) == LET s == ShapeOk(o)
                    rep == RSeq([i \in 1 .. N(o) |-> RSeq([l \in 1 .. o.L |-> Reported(o, i, l)])])
                    ws == RSeq([i \in 1 .. N(o) |-> Wts(o.lg[i])]) IN IF s # "ok" THEN s
  ELSE FirstBad(<<PscoreV(o), MatOk(o)>> \o [i \in 1 .. N(o) |-> RewOk(o, rep, i)] \o <<StatOk(o, rep), FreqOk(o, ws),
     IF RNear(o.onpolicy, RDiv(RSum(o.rew), N(o)), Tol) THEN "ok" ELSE "on-policy value is not the mean slate reward",
     IF o.same THEN "ok" ELSE "the same seed does not reproduce the same log">>)
SamplingV(o) == LET s == ShapeOk(o) IN IF s # "ok" THEN s ELSE
  LET ws == RSeq([i \in 1 .. N(o) |-> Wts(o.lg[i])]) IN
  FirstBad([l \in 1 .. o.L |-> RewardDraws(o, l)] \o [k \in 1 .. o.L * o.K |-> ActionDraws(o, ws, ((k - 1) \div o.K) + 1, (k - 1) % o.K)])
(* ------------------------------------------------------------ ground truth *)
SumOver(S, f(_)) == LET q == SetToSeq(S) IN RSum([k \in 1 .. Len(q) |-> f(q[k])])
SlateValue(o, i, s) ==
  LET ps == RSeq([l \in 1 .. o.L |-> IF o.ctxfree THEN o.base[i][s[l] + 1][l] ELSE SlotParam(o, o.base[i], s, l)]) IN
  IF o.binary THEN ExpectedClicks(RSeq([l \in 1 .. o.L |-> RTrim(RMul(Exam(o, l), ps[l]))]), RSeq([l \in 1 .. o.L |-> Att(o, l)]))
  ELSE RSum([l \in 1 .. o.L |-> TruncMean(ps[l])])
Truth(o) == RDiv(RSum([i \in 1 .. N(o) |-> LET w == Wts(o.lg[i]) IN
   SumOver(Seqs(o.K, o.L, o.fac), LAMBDA s : RMul(SlateProb(w, s, o.fac), SlateValue(o, i, s)))]), N(o))
TruthV(o) == LET t == Truth(o) IN IF RNear(o.value, t, "1/1000000") THEN "ok" ELSE "ground-truth value " \o RStr(o.value) \o ", expectation of the slate reward is " \o RStr(t)
(* ---------------------------------------------------------- named policies *)
Rank(o, i, a) == Cardinality({b \in 1 .. o.K : RLt(o.base[i][a + 1], o.base[i][b])})  \* 0 = best
Greedy(o, i, l) == CHOOSE a \in Acts(o.K) :
   Rank(o, i, a) = (IF o.policy = "optimal" THEN (IF o.fac THEN 0 ELSE l - 1) ELSE (IF o.fac THEN o.K - 1 ELSE o.K - l))
RECURSIVE UniCasc(_, _)
UniCasc(o, l) == IF l = 0 THEN "1" ELSE RDiv(UniCasc(o, l - 1), IF o.fac THEN o.K ELSE o.K - l + 1)
NamedOk(o, i) ==
  LET s == Slate(o, i)
      e == IF o.policy = "random" THEN "1" ELSE o.eps
      hit(l) == IF o.policy = "random" THEN 0 ELSE IF s[l] = Greedy(o, i, l) THEN 1 ELSE 0
      pre(l) == IF \A j \in 1 .. l : hit(j) = 1 THEN 1 ELSE 0
      mix(x, u) == RAdd(RMul(RSub(1, e), x), RMul(e, u)) IN
  IF \E l \in 1 .. o.L : ~Near(o.casc[Slot(o, i, l)], mix(pre(l), UniCasc(o, l))) THEN o.policy \o ": cascade propensity is wrong"
  ELSE IF \E l \in 1 .. o.L : ~Near(o.ps[Slot(o, i, l)], mix(pre(o.L), UniCasc(o, o.L))) THEN o.policy \o ": slate propensity is wrong"
  ELSE IF \E l \in 1 .. o.L : ~Near(o.item[Slot(o, i, l)], mix(hit(l), RDiv(1, o.K))) THEN o.policy \o ": slot propensity is wrong"
  ELSE "ok"
NamedV(o) == FirstBad([i \in 1 .. Len(o.base) |-> NamedOk(o, i)])
Verdict(o) == IF o.err # "" THEN o.kind \o " raised: " \o o.err
  ELSE CASE o.kind = "pscore" -> PscoreV(o) [] o.kind = "feedback" -> FeedbackV(o) [] o.kind = "sampling" -> SamplingV(o)
         [] o.kind = "truth" -> TruthV(o) [] o.kind = "named" -> NamedV(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
