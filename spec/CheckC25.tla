------------------------------ MODULE CheckC25 ------------------------------
(* Judge: rounds emitted by the environment simulator.                        *)
(* record (env): K, d, mode ("fixed" | "function" | "drift"), actx: the       *)
(* representation in use; reqs: [op, n, rounds: <<[ctx, actx, r, er, dl]>>,   *)
(* len, fn: calls of the reward function [ctx, actx, out], df: calls of the   *)
(* delay function [n, k, er, out]]; coefs: rows of an identically seeded      *)
(* drifter asked for the whole stream; hasdelay; again: the same stream       *)
(* requested from a second environment of the same seed.                      *)
EXTENDS JudgeBase, EnvStream, SynthLog
SameRow(u, v) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : RNear(u[i], v[i], Tol)
SameMat(u, v) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : SameRow(u[i], v[i])
Eye(K) == [i \in 1 .. K |-> [j \in 1 .. K |-> IF i = j THEN 1 ELSE 0]]
Sig(z) == RDiv(1, RAdd(1, RExp(RNeg(z))))
Mat(x, rows, cols) == RSeq([i \in 1 .. rows |-> RSeq([j \in 1 .. cols |-> x[(i - 1) * cols + j]])])
Drifted(o, co, ctx) ==
  LET f == Poly(ctx, 1) IN
  RSeq([a \in 1 .. o.K |->
    LET g == Poly(o.actx[a], 1)
        m == Mat(co.x, Len(f), Len(g)) IN
    Sig(RAdd(RAdd(RDot(co.c, f), RDot(co.a, g)), RSum([i \in 1 .. Len(f) |-> RMul(f[i], RDot(m[i], g))])))])
Where(k, j) == "request " \o ToString(k) \o ", round " \o ToString(j)

RoundVerdict(o, q, k, j, t) ==
  LET rd == q.rounds[j] IN
  IF Len(rd.ctx) # o.d THEN Where(k, j) \o ": context has " \o ToString(Len(rd.ctx)) \o " dimensions"
  ELSE IF ~SameMat(rd.actx, o.actx) THEN Where(k, j) \o ": action representation is not the environment's"
  ELSE IF Len(rd.r) # o.K \/ Len(rd.er) # o.K THEN Where(k, j) \o ": not one reward per action"
  ELSE IF \E a \in 1 .. o.K : ~(REq(rd.r[a], 0) \/ REq(rd.r[a], 1)) THEN Where(k, j) \o ": a reward is not binary"
  ELSE IF \E a \in 1 .. o.K : ~RLe(0, rd.er[a]) \/ ~RLe(rd.er[a], 1) THEN Where(k, j) \o ": an expected reward is not a probability"
  ELSE IF \E a \in 1 .. o.K : (REq(rd.er[a], 0) \/ REq(rd.er[a], 1)) /\ ~REq(rd.r[a], rd.er[a]) THEN Where(k, j) \o ": reward contradicts its certain expectation"
  ELSE IF o.mode = "fixed" /\ ~SameRow(rd.er, o.reqs[1].rounds[1].er) THEN Where(k, j) \o ": expected rewards of a context-free environment changed"
  ELSE IF o.mode = "function" /\ ~SameRow(rd.er, q.fn[1].out[j]) THEN Where(k, j) \o ": expected rewards are not what the reward function gave for this round"
  ELSE IF o.mode = "function" /\ ~SameRow(rd.ctx, q.fn[1].ctx[j]) THEN Where(k, j) \o ": reward function saw another context"
  ELSE IF o.mode = "drift" /\ ~SameRow(rd.er, Drifted(o, o.coefs[t + j], rd.ctx)) THEN Where(k, j) \o ": expected rewards are not those of the coefficients scheduled for round " \o ToString(t + j - 1)
  ELSE IF o.hasdelay # (rd.dl # <<>>) THEN Where(k, j) \o ": delays are present without a delay function, or missing with one"
  ELSE IF o.hasdelay /\ ~SameRow(rd.dl, q.df[1].out[j]) THEN Where(k, j) \o ": delays are not what the delay function gave for this round"
  ELSE IF o.hasdelay /\ ~SameRow(rd.er, q.df[1].er[j]) THEN Where(k, j) \o ": delay function saw other expected rewards"
  ELSE "ok"
ReqVerdict(o, k, t) ==
  LET q == o.reqs[k] IN
  IF Len(q.rounds) # q.n THEN "request " \o ToString(k) \o " of " \o ToString(q.n) \o " rounds emitted " \o ToString(Len(q.rounds))
  ELSE IF q.len # q.n THEN "request " \o ToString(k) \o ": reported length is " \o ToString(q.len)
  ELSE IF o.mode = "function" /\ (Len(q.fn) # 1 \/ Len(q.fn[1].ctx) # q.n \/ ~SameMat(q.fn[1].actx, o.actx))
       THEN "request " \o ToString(k) \o ": the reward function was not asked once, for these rounds and actions"
  ELSE IF o.hasdelay /\ (Len(q.df) # 1 \/ q.df[1].n # q.n \/ q.df[1].k # o.K)
       THEN "request " \o ToString(k) \o ": the delay function was not asked once, for these rounds and actions"
  ELSE LET bad == {j \in 1 .. q.n : RoundVerdict(o, q, k, j, t) # "ok"} IN
       IF bad = {} THEN "ok" ELSE RoundVerdict(o, q, k, CHOOSE j \in bad : \A i \in bad : j <= i, t)
(* what was read again from a batch is what it held when it was handed out *)
ReadVerdict(o, k) ==
  LET q == o.reqs[k]
      bs == SelectSeq(o.reqs, LAMBDA r : r.op = "batch")
  IN IF Len(q.rounds) # q.n THEN "reading " \o ToString(q.n) \o " rounds of a batch gave " \o ToString(Len(q.rounds))
     ELSE IF q.rounds # SubSeq(bs[q.k].rounds, 1, q.n) THEN "a batch read again is not what was handed out (request " \o ToString(k) \o ")"
     ELSE "ok"
RECURSIVE Walk(_, _, _)
Walk(o, k, t) ==
  IF k > Len(o.reqs) THEN "ok"
  ELSE LET q == o.reqs[k]
           v == IF q.op = "read" THEN ReadVerdict(o, k) ELSE ReqVerdict(o, k, t)
       IN IF v # "ok" THEN v ELSE Walk(o, k + 1, IF q.op = "read" THEN t ELSE t + q.n)
RECURSIVE Stream(_, _)
Stream(o, k) == IF k = 0 THEN <<>> ELSE Stream(o, k - 1) \o (IF o.reqs[k].op = "read" THEN <<>> ELSE o.reqs[k].rounds)
(* rewards are drawn with the reported means, independently of the round before *)
Dev(s, a) == [t \in 1 .. Len(s) |-> RSub(s[t].r[a], s[t].er[a])]
Var(s, a) == [t \in 1 .. Len(s) |-> RMul(s[t].er[a], RSub(1, s[t].er[a]))]
Sampling(o, s) ==
  LET n == Len(s)
      bad == {a \in 1 .. o.K : ~Within(RSum(RSeq(Dev(s, a))), RSum(RSeq(Var(s, a))))}
      lag == {a \in 1 .. o.K : LET e == RSeq(Dev(s, a))  v == RSeq(Var(s, a)) IN
                ~Within(RSum([t \in 1 .. n - 1 |-> RMul(e[t], e[t + 1])]), RSum([t \in 1 .. n - 1 |-> RMul(v[t + 1], RSq(e[t]))]))}
      arm == {a \in 1 .. o.K - 1 : LET e == RSeq(Dev(s, a))  f == RSeq(Dev(s, a + 1))  v == RSeq(Var(s, a + 1)) IN
                ~Within(RSum([t \in 1 .. n |-> RMul(e[t], f[t])]), RSum([t \in 1 .. n |-> RMul(v[t], RSq(e[t]))]))}
  IN IF bad # {} THEN "rewards of action " \o ToString((CHOOSE a \in bad : TRUE) - 1) \o " do not have the reported expected rewards"
     ELSE IF lag # {} THEN "rewards of consecutive rounds are not independent"
     ELSE IF arm # {} THEN "rewards of different actions are not independent"
     ELSE "ok"
EnvVerdict(o) ==
  IF o.err # "" THEN "environment raised: " \o o.err
  ELSE IF o.own = FALSE /\ ~SameMat(o.actx, Eye(o.K)) THEN "default action representation is not one-hot"
  ELSE LET v == Walk(o, 1, 0) IN
  IF v # "ok" THEN v
  ELSE LET s == Stream(o, Len(o.reqs)) IN
  IF \E t \in 1 .. Len(s) - 1 : s[t].ctx = s[t + 1].ctx THEN "two rounds in a row have the same context"
  ELSE IF s # o.again THEN "an environment of the same seed emits another stream"
  ELSE Sampling(o, s)

(* delay samplers: delay d is the ceiling of an exponential, so P(d <= m) = 1 - exp(-m / scale) *)
Scale(o, a) == IF o.which = "plain" THEN o.mx ELSE RAdd(o.mn, RMul(RSub(1, o.er[a]), RSub(o.mx, o.mn)))
Hit(o, a, m) == RSub(1, RExp(RNeg(RDiv(m, Scale(o, a)))))
Compatible(k, n, p) == RLe(RSq(RMax("0", RSub(RAbs(RSub(k, RMul(n, p))), 1))), RMul("169/4", RMul(n, RMul(p, RSub(1, p)))))
DelayVerdict(o) ==
  IF o.err # "" THEN "delay sampler raised: " \o o.err
  ELSE IF o.bad # "" THEN o.bad
  ELSE LET one == {<<c, a, i>> \in (1 .. 2) \X (1 .. o.K) \X (1 .. Len(o.m)) : ~Compatible(o.below[c][a][i], o.n, Hit(o, a, o.m[i]))}
           two == {a \in 1 .. o.K : ~Compatible(o.calls[a], o.n, RSq(Hit(o, a, o.m[1])))}
           nxt == {a \in 1 .. o.K : ~Compatible(o.lag[a], o.n \div 2, RSq(Hit(o, a, o.m[1])))}
           arm == {a \in 1 .. o.K - 1 : ~Compatible(o.arms[a], o.n, IF o.which = "plain" THEN Hit(o, a, o.m[1]) ELSE RMul(Hit(o, a, o.m[1]), Hit(o, a + 1, o.m[1])))}
       IN IF one # {} THEN LET x == CHOOSE y \in one : TRUE IN
             "delays of at most " \o RStr(o.m[x[3]]) \o " rounds occur " \o ToString(o.below[x[1]][x[2]][x[3]]) \o " times in " \o ToString(o.n) \o ", probability is " \o RStr(Hit(o, x[2], o.m[x[3]]))
          ELSE IF two # {} THEN "delays of two calls are not independent"
          ELSE IF arm # {} THEN "delays of different actions have the wrong dependence"
          ELSE IF nxt # {} THEN "delays of consecutive rounds are not independent" ELSE "ok"
Verdict(o) == IF o.kind = "delay" THEN DelayVerdict(o) ELSE EnvVerdict(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
