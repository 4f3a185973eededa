------------------------------ MODULE CheckC17 ------------------------------
(* Judge: a recorded simulation is a behaviour of Delays.                     *)
(* sim record: cf (context-free?), ops: sequence of                           *)
(*   step:  ctx, rewards, delays (<<>> = none), evs, played, total            *)
(*   flush: evs                                                               *)
(* evs: events seen by the policy, in order: [k|->"select", ctx, a (list)]    *)
(*      or [k|->"update", a, r, ctx]                                          *)
EXTENDS JudgeBase, Delays

SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : REq(s[i], t[i])
Upd(o, sel, r) == [a |-> sel[r + 1], r |-> o.ops[o.at[r + 1]].rewards[sel[r + 1] + 1], ctx |-> o.ops[o.at[r + 1]].ctx]
IsUpd(o, ev, u) == /\ ev.k = "update" /\ ev.a = u.a /\ REq(ev.r, u.r)
                   /\ (IF o.cf THEN ev.ctx = <<>> ELSE SameSeq(ev.ctx, u.ctx))
Updates(o, evs, sel, rounds) ==
  /\ Len(evs) = Len(rounds)
  /\ \A i \in 1 .. Len(evs) : IsUpd(o, evs[i], Upd(o, sel, rounds[i]))
Perms(S) == SetToSeqs(S)
(* flushed feedback: every pending round once, in any order *)
RECURSIVE FlushOk(_, _, _, _)
FlushOk(o, evs, sel, rest) ==
  IF evs = <<>> THEN rest = {}
  ELSE \E r \in rest : IsUpd(o, evs[1], Upd(o, sel, r)) /\ FlushOk(o, Tail(evs), sel, rest \ {r})

Total(o, sel) == RSum([i \in 1 .. Len(sel) |-> o.ops[o.at[i]].rewards[sel[i] + 1]])
RECURSIVE Run(_, _, _, _)
Run(o, i, st, sel) ==
  IF i > Len(o.ops) THEN
     IF Len(o.selected) # Len(sel) \/ \E k \in 1 .. Len(sel) : o.selected[k] # sel[k] THEN "recorded selections differ from the rounds played"
     ELSE IF \E k \in 1 .. Len(sel) : ~REq(o.obtained[k], o.ops[o.at[k]].rewards[sel[k] + 1]) \/ Len(o.obtained) # Len(sel) THEN "recorded rewards differ from the rounds played"
     ELSE IF Len(o.contexts) # Len(sel) \/ \E k \in 1 .. Len(sel) : ~SameSeq(o.contexts[k], o.ops[o.at[k]].ctx) THEN "recorded contexts differ from the rounds played"
     ELSE IF Len(o.truth) # Len(sel) \/ \E k \in 1 .. Len(sel) : ~SameSeq(o.truth[k], o.ops[o.at[k]].rewards) THEN "recorded ground-truth rewards differ from the rounds played"
     ELSE "ok"
  ELSE LET op == o.ops[i] IN
  IF op.op = "flush" THEN
     IF ~FlushOk(o, op.evs, sel, RoundsOf(st.pending))
     THEN "flush delivered " \o ToString(Len(op.evs)) \o " updates, pending rounds were " \o ToString(RoundsOf(st.pending)) \o " (wrong feedback, missing or repeated)"
     ELSE Run(o, i + 1, FlushOf(st, SortedRounds(st.pending)), sel)
  ELSE IF op.evs = <<>> \/ op.evs[1].k # "select" THEN "round " \o ToString(st.played) \o " did not start with a selection"
  ELSE IF ~o.cf /\ ~SameSeq(op.evs[1].ctx, op.ctx) THEN "round " \o ToString(st.played) \o ": selection saw another context"
  ELSE LET a == op.evs[1].a[1]
           sel2 == Append(sel, a)
           s == StepOf(st, IF op.delays = <<>> THEN 0 ELSE op.delays[a + 1])
           ups == Tail(op.evs)
       IN IF ~Updates(o, ups, sel2, s.delivered)
          THEN "round " \o ToString(st.played) \o ": policy received " \o ToString([k \in 1 .. Len(ups) |-> <<ups[k].k, ups[k].a>>]) \o ", feedback due now is of rounds " \o ToString(s.delivered)
          ELSE IF op.played >= 0 /\ op.played # s.state.played THEN "played-round counter is " \o ToString(op.played) \o " after " \o ToString(s.state.played) \o " rounds"
          ELSE IF op.played >= 0 /\ ~RNear(op.total, Total(o, sel2), Tol) THEN "cumulative reward is " \o RStr(op.total) \o " expected " \o RStr(Total(o, sel2))
          ELSE Run(o, i + 1, s.state, sel2)

(* value simulation: n_sim independent copies of the policy play the logged contexts *)
RECURSIVE Play(_, _, _, _)
Play(o, evs, i, k) ==                    \* k: next round of the current run
  IF i > Len(evs) THEN IF k = 1 THEN "ok" ELSE "a run stopped before the last round"
  ELSE IF i + 2 > Len(evs) THEN "a run stopped inside a round"
  ELSE LET s == evs[i]  m == evs[i + 1]  u == evs[i + 2]  rd == o.rounds[k] IN
  IF s.k # "select" \/ m.k # "sample" \/ u.k # "update" THEN "a round is not select, sample reward, update"
  ELSE IF s.copy = 0 THEN "the policy handed in was used itself, not a copy"
  ELSE IF k = 1 /\ i > 1 /\ s.copy = evs[i - 1].copy THEN "two runs share one policy copy"
  ELSE IF k > 1 /\ s.copy # evs[i - 1].copy THEN "a run changed its policy copy"
  ELSE IF ~o.cf /\ ~SameSeq(s.ctx, rd.ctx) THEN "selection saw another context"
  ELSE LET a == s.a[rd.p + 1] IN
       IF m.a # a \/ ~SameSeq(m.ctx, rd.ctx) THEN "reward sampled for another action or context"
       ELSE IF u.a # a \/ ~REq(u.r, m.r) \/ u.copy # s.copy \/ (~o.cf /\ ~SameSeq(u.ctx, rd.ctx)) THEN "policy updated with other feedback than obtained"
       ELSE Play(o, evs, i + 3, IF k = Len(o.rounds) THEN 1 ELSE k + 1)
Value(o) ==
  LET n == Len(o.rounds)
      terms == [j \in 1 .. Len(o.evs) \div 3 |->
                 LET s == o.evs[3 * j - 2]  rd == o.rounds[((j - 1) % n) + 1] IN rd.er[s.a[rd.p + 1] + 1]]
  IN RDiv(RSum(terms), o.nsim * n)
ValueVerdict(o) ==
  IF o.err # "" THEN "value simulation raised: " \o o.err
  ELSE IF Len(o.evs) # 3 * o.nsim * Len(o.rounds) THEN "number of simulated rounds is not n_sim times n_rounds"
  ELSE LET v == Play(o, o.evs, 1, 1) IN
  IF v # "ok" THEN v
  ELSE IF RNear(o.res, Value(o), Tol) THEN "ok" ELSE "simulated value " \o RStr(o.res) \o " expected " \o RStr(Value(o))

(* delay samplers: one non-negative integer delay per round and action *)
DelayVerdict(o) ==
  IF o.err # "" THEN "delay sampler raised: " \o o.err
  ELSE IF Len(o.d) # o.n \/ \E i \in 1 .. o.n : Len(o.d[i]) # o.k THEN "delays do not have one row per round and one column per action"
  ELSE IF \E i \in 1 .. o.n : \E j \in 1 .. o.k : ~RLe(0, o.d[i][j]) \/ ~REq(RFloor(o.d[i][j]), o.d[i][j]) THEN "a delay is not a non-negative whole number of rounds"
  ELSE IF o.same /\ \E i \in 1 .. o.n : \E j \in 1 .. o.k : ~REq(o.d[i][j], o.d[i][1]) THEN "delays of one round differ between actions"
  ELSE "ok"

SimVerdict(o) == IF o.err # "" THEN "simulation raised: " \o o.err ELSE Run(o, 1, Empty, <<>>)
Verdict(o) == CASE o.kind = "sim" -> SimVerdict(o) [] o.kind = "value" -> ValueVerdict(o) [] o.kind = "delay" -> DelayVerdict(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
