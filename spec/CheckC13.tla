------------------------------ MODULE CheckC13 ------------------------------
EXTENDS JudgeBase, ContextFree
Eps == "1/1000000000000"
(* trace: pol, K, L, b, ops with observations *)
CountsOk(o, c, op) == /\ Len(op.cnt) = o.K /\ Len(op.rew) = o.K
  /\ \A a \in Actions(o.K) : op.cnt[a + 1] = Count(c, a) /\ RNear(op.rew[a + 1], Reward(c, a), Tol)
RECURSIVE Walk(_, _, _)
Walk(o, i, h) ==
  IF i > Len(o.ops) THEN "ok"
  ELSE LET op == o.ops[i]
           h2 == IF op.op = "init" THEN <<>> ELSE IF op.op = "update" THEN Append(h, [a |-> op.a, r |-> op.r]) ELSE h
           c == Committed(h2, o.b)
       IN
  IF op.trial # Len(h2) THEN "after step " \o ToString(i) \o " the trial counter is " \o ToString(op.trial) \o ", " \o ToString(Len(h2)) \o " observed"
  ELSE IF ~CountsOk(o, c, op) THEN "after step " \o ToString(i) \o " (" \o op.op \o ") decisions rest on " \o ToString(op.cnt) \o " observations, completed batches hold " \o ToString([a \in 1 .. o.K |-> Count(c, a - 1)])
  ELSE IF op.op = "select" /\ ~ValidList(op.sel, o.K, o.L) THEN "selection " \o ToString(op.sel) \o " is not a list of " \o ToString(o.L) \o " distinct actions"
  ELSE IF op.op = "select" /\ o.pol = "egreedy" /\ o.eps = "0" /\ AllTried(c, o.K) /\ ~Ranked(op.sel, o.K, LAMBDA a : MeanReward(c, a), Eps)
       THEN "greedy selection " \o ToString(op.sel) \o " is not ranked by observed mean reward"
  ELSE Walk(o, i + 1, h2)
Trace(o) ==
  IF o.err # "" THEN "policy raised: " \o o.err
  ELSE LET v == Walk(o, 1, <<>>) IN
  IF v # "ok" THEN v
  ELSE IF o.again # o.fresh THEN "re-initialised policy selects " \o ToString(o.again) \o ", a fresh one " \o ToString(o.fresh)
  ELSE "ok"

(* stat: after the updates h, n selections gave freq[p][a] *)
Best(c, K) == CHOOSE a \in Actions(K) : \A x \in Actions(K) : RLe(MeanReward(c, x), MeanReward(c, a))
UniqueBest(c, K) == \A x \in Actions(K) : x # Best(c, K) => RLt(MeanReward(c, x), MeanReward(c, Best(c, K)))
Post(o, c, a) == <<RFloor(RAdd(o.alpha[a + 1], Reward(c, a))), RFloor(RAdd(o.beta[a + 1], RSub(Count(c, a), Reward(c, a))))>>
Prob(o, c, a) ==                        \* probability that a is the first selected action
  CASE o.pol = "random" -> RDiv(1, o.K)
    [] o.pol = "egreedy" -> IF ~AllTried(c, o.K) THEN RDiv(1, o.K)
         ELSE RAdd(RDiv(o.eps, o.K), IF a = Best(c, o.K) THEN RSub(1, o.eps) ELSE "0")
    [] o.pol = "bts" -> LET p0 == Post(o, c, 0)  p1 == Post(o, c, 1)
                            w == WinProb(p0[1], p0[2], p1[1], p1[2])
                        IN IF a = 1 THEN w ELSE RSub(1, w)
Stat(o) ==
  IF o.err # "" THEN "policy raised: " \o o.err
  ELSE LET c == Committed(o.h, o.b) IN
  IF o.pol = "egreedy" /\ AllTried(c, o.K) /\ ~UniqueBest(c, o.K) THEN "ok"
  ELSE LET bad == {a \in Actions(o.K) : ~Compatible(o.freq[1][a + 1], o.n, Prob(o, c, a))} IN
  IF bad # {} THEN LET a == CHOOSE x \in bad : TRUE IN
       o.pol \o " selects action " \o ToString(a) \o " first in " \o ToString(o.freq[1][a + 1]) \o " of " \o ToString(o.n) \o " selections, probability is " \o RStr(Prob(o, c, a))
  ELSE IF o.pol = "random" /\ \E p \in 1 .. o.L : \E a \in 1 .. o.K : ~Compatible(o.freq[p][a], o.n, RDiv(1, o.K)) THEN "random policy is not uniform at some position"
  ELSE "ok"

(* dist: batch action distribution [round][action][position] *)
Dist(o) ==
  IF o.err # "" THEN "batch distribution raised: " \o o.err
  ELSE LET N == Len(o.dist) IN
  IF N # o.n \/ \E i \in 1 .. N : Len(o.dist[i]) # o.K \/ \E a \in 1 .. o.K : Len(o.dist[i][a]) # o.L THEN "batch distribution has the wrong shape"
  ELSE IF \E i \in 1 .. N : \E a \in 1 .. o.K : \E p \in 1 .. o.L : ~RLe(0, o.dist[i][a][p]) THEN "batch distribution has a negative entry"
  ELSE IF \E i \in 1 .. N : \E p \in 1 .. o.L : ~RNear(RSum([a \in 1 .. o.K |-> o.dist[i][a][p]]), 1, Tol) THEN "batch distribution does not sum to one at some position"
  ELSE IF \E i \in 1 .. N : \E a \in 1 .. o.K : ~RLe(RSum(o.dist[i][a]), RAdd(1, IF o.pol = "random" THEN o.L ELSE Tol)) THEN "one action is given several positions of a list"
  ELSE IF o.dist # [i \in 1 .. N |-> o.dist[1]] THEN "batch distribution differs between rounds"
  ELSE LET c == Committed(o.h, o.b) IN
  IF o.pol = "random" /\ \E a \in 1 .. o.K : \E p \in 1 .. o.L : ~RNear(o.dist[1][a][p], RDiv(1, o.K), Tol) THEN "random batch distribution is not uniform"
  ELSE IF o.pol = "bts" /\ o.K = 2 /\ \E a \in {0, 1} : ~Compatible(RMul(o.nsim, o.dist[1][a + 1][1]), o.nsim, Prob(o, c, a)) THEN "batch distribution does not follow the posterior"
  ELSE "ok"
Verdict(o) == CASE o.kind = "trace" -> Trace(o) [] o.kind = "stat" -> Stat(o) [] o.kind = "dist" -> Dist(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
