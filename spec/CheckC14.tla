------------------------------ MODULE CheckC14 ------------------------------
EXTENDS JudgeBase, Contextual
Eps == "1/100000000"
Close(u, v, t) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : RNear(u[i], v[i], t)
Lin(o) == o.pol \in {"lineg", "linucb", "lints"}
LinScore(o, c, x, a) ==
  LET ps == Pairs(c, a)
      mean == RDot(x, Theta(ps, o.d))
  IN IF o.pol = "linucb" THEN RAdd(mean, RMul(o.eps, RSqrt(Width2(ps, o.d, x)))) ELSE mean
LogScore(o, op, a) ==
  LET p == Sigm(RDot(op.x, op.m[a + 1])) IN
  IF o.pol = "logucb" THEN RAdd(p, RMul(o.eps, RSqrt(RSum([i \in 1 .. o.d |-> RDiv(RSq(op.x[i]), op.q[a + 1][i])])))) ELSE p
Score(o, c, op, a) == IF Lin(o) THEN LinScore(o, c, op.x, a) ELSE LogScore(o, op, a)
Deterministic(o) == o.pol \in {"linucb", "logucb"} \/ (o.pol \in {"lineg", "logeg"} /\ o.eps = "0")

SelectVerdict(o, i, op, h) ==
  LET c == Committed(h, o.b) IN
  IF ~ValidList(op.sel, o.K, o.L) THEN "selection " \o ToString(op.sel) \o " is not a list of " \o ToString(o.L) \o " distinct actions"
  ELSE IF Lin(o) /\ op.theta # <<>> /\ (Deterministic(o) \/ o.pol = "lints") /\ \E a \in 1 .. o.K : ~Close(op.theta[a], Theta(Pairs(c, a - 1), o.d), Eps)
       THEN "step " \o ToString(i) \o ": model is not the ridge estimate of the completed batches"
  ELSE IF Deterministic(o) /\ ~Ranked(op.sel, o.K, LAMBDA a : Score(o, c, op, a), Eps)
       THEN "step " \o ToString(i) \o ": selection " \o ToString(op.sel) \o " is not ranked by the policy's score"
  ELSE "ok"

(* logistic models: op.m[a], op.q[a] after the step, pm, pq before it *)
GradTol == "1/100"
LogVerdict(o, i, pm, pq, op, h) ==
  LET batch == op.op = "update" /\ Len(h) % o.b = 0
      bad == {a \in 0 .. o.K - 1 :
        LET ps == IF batch THEN LastBatch(h, o.b, a) ELSE <<>> IN
        IF ps = <<>> THEN ~Close(op.m[a + 1], pm[a + 1], "1/1000000") \/ ~Close(op.q[a + 1], pq[a + 1], "1/1000000")
        ELSE \/ \E k \in 1 .. o.d : ~RLe(RAbs(LogGrad(op.m[a + 1], pm[a + 1], pq[a + 1], ps)[k]), GradTol)
             \/ ~Close(op.q[a + 1], Precision(op.m[a + 1], pq[a + 1], ps), "1/100000")}
  IN IF bad = {} THEN "ok"
     ELSE IF batch /\ LastBatch(h, o.b, CHOOSE a \in bad : TRUE) # <<>>
          THEN "step " \o ToString(i) \o ": model of action " \o ToString(CHOOSE a \in bad : TRUE) \o " is not the posterior given its pairs of the batch"
          ELSE "step " \o ToString(i) \o ": model of action " \o ToString(CHOOSE a \in bad : TRUE) \o " changed without new feedback"

RECURSIVE Walk(_, _, _, _, _)
Walk(o, i, h, pm, pq) ==
  IF i > Len(o.ops) THEN "ok"
  ELSE LET op == o.ops[i]
           h2 == IF op.op = "init" THEN <<>> ELSE IF op.op = "update" THEN Append(h, [a |-> op.a, r |-> op.r, x |-> op.x]) ELSE h
           pm2 == IF op.op = "init" THEN o.m0 ELSE pm
           pq2 == IF op.op = "init" THEN o.q0 ELSE pq
           lv == IF Lin(o) THEN "ok" ELSE LogVerdict(o, i, pm2, pq2, op, h2)
           sv == IF op.op = "select" THEN SelectVerdict(o, i, op, h2) ELSE "ok"
       IN IF op.trial # Len(h2) THEN "after step " \o ToString(i) \o " the trial counter is " \o ToString(op.trial)
          ELSE IF \E a \in 0 .. o.K - 1 : op.counts[a + 1] # Cardinality({k \in 1 .. Len(h2) : h2[k].a = a})
               THEN "after step " \o ToString(i) \o " the action counts are " \o ToString(op.counts)
          ELSE IF lv # "ok" THEN lv ELSE IF sv # "ok" THEN sv
          ELSE Walk(o, i + 1, h2, op.m, op.q)
Prior(o) == Lin(o) \/ (\A a \in 1 .. o.K : Close(o.m0[a], ZeroVec(o.d), "1/1000000") /\ Close(o.q0[a], [k \in 1 .. o.d |-> o.lam], "1/1000000"))
Trace(o) ==
  IF o.err # "" THEN "policy raised: " \o o.err
  ELSE IF ~Prior(o) THEN "a fresh logistic policy does not start from its prior"
  ELSE LET v == Walk(o, 1, <<>>, o.m0, o.q0) IN
  IF v # "ok" THEN v
  ELSE IF o.again # o.fresh THEN "re-initialised policy selects " \o ToString(o.again) \o ", a fresh one " \o ToString(o.fresh)
  ELSE "ok"

(* frequency of selections in one context; the sampled coefficients of a logistic policy are
   independent normals with its reported mean m and standard deviation alpha / q *)
Sd2(o, a) == RSum([i \in 1 .. o.d |-> RSq(RMul(o.x[i], RDiv(o.alpha, o.q0[a + 1][i])))])
Gap(o, c, a, z) ==
  IF o.pol = "logts"
  THEN RDiv(RSub(RDot(o.x, o.m0[a + 1]), RDot(o.x, o.m0[z + 1])), RSqrt(RAdd(Sd2(o, a), Sd2(o, z))))
  ELSE RDiv(RSub(LinScore(o, c, o.x, a), LinScore(o, c, o.x, z)),
            RSqrt(RAdd(Width2(Pairs(c, a), o.d, o.x), Width2(Pairs(c, z), o.d, o.x))))
MeanScore(o, c, a) == IF o.pol = "logeg" THEN RDot(o.x, o.m0[a + 1]) ELSE LinScore(o, c, o.x, a)
Prob(o, c, a) ==
  IF o.pol \in {"lints", "logts"} THEN RPhi(Gap(o, c, a, 1 - a))
  ELSE RAdd(RDiv(o.eps, o.K), IF \A z \in 0 .. o.K - 1 : RLe(MeanScore(o, c, z), MeanScore(o, c, a)) THEN RSub(1, o.eps) ELSE "0")
(* lists of an epsilon-greedy policy: the ranked one, or any arrangement of L distinct actions *)
RECURSIVE Arrange(_, _)
Arrange(k, l) == IF l = 0 THEN 1 ELSE k * Arrange(k - 1, l - 1)
ListCount(o, sel) == IF \E i \in 1 .. Len(o.lists) : o.lists[i].sel = sel THEN (CHOOSE x \in {o.lists[i] : i \in 1 .. Len(o.lists)} : x.sel = sel).n ELSE 0
ListProb(o, c, sel) == RAdd(RDiv(o.eps, Arrange(o.K, o.L)), IF Ranked(sel, o.K, LAMBDA a : MeanScore(o, c, a), "0") THEN RSub(1, o.eps) ELSE "0")
Stat(o) ==
  IF o.err # "" THEN "policy raised: " \o o.err
  ELSE IF \E i \in 1 .. Len(o.lists) : ~ValidList(o.lists[i].sel, o.K, o.L) THEN "a selection is not a list of distinct actions"
  ELSE LET c == Committed(o.h, o.b)
           eg == o.pol \in {"lineg", "logeg"}
           tie == eg /\ \E a, z \in 0 .. o.K - 1 : a # z /\ RNear(MeanScore(o, c, a), MeanScore(o, c, z), Eps)
           bad == {a \in 0 .. o.K - 1 : ~Compatible(o.freq[a + 1], o.n, Prob(o, c, a))}
           all == {s \in [1 .. o.L -> 0 .. o.K - 1] : ValidList(s, o.K, o.L)}
           badl == IF eg THEN {s \in all : ~Compatible(ListCount(o, s), o.n, ListProb(o, c, s))} ELSE {}
       IN IF tie THEN "ok"
          ELSE IF bad # {} THEN LET a == CHOOSE z \in bad : TRUE IN
               o.pol \o " selects action " \o ToString(a) \o " in " \o ToString(o.freq[a + 1]) \o " of " \o ToString(o.n) \o " selections, probability is " \o RStr(Prob(o, c, a))
          ELSE IF badl # {} THEN LET s == CHOOSE z \in badl : TRUE IN
               o.pol \o " selects the list " \o ToString(s) \o " in " \o ToString(ListCount(o, s)) \o " of " \o ToString(o.n) \o " selections, probability is " \o RStr(ListProb(o, c, s))
          ELSE "ok"
Verdict(o) == IF o.kind = "stat" THEN Stat(o) ELSE Trace(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
