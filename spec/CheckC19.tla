------------------------------ MODULE CheckC19 ------------------------------
(* record: log, cf, evs (select/update events), dist [round][action][pos],    *)
(* mutated (fields of the log that changed), value (replay-method value)      *)
EXTENDS JudgeBase, Replay
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : REq(s[i], t[i])
RECURSIVE Go(_, _, _, _)
Go(o, k, i, st) ==                       \* k: rounds done, i: next event
  IF k = Len(o.log) THEN
     IF i <= Len(o.evs) THEN "events after the last round"
     ELSE IF Len(o.dist) # k THEN "distribution does not have one row per round"
     ELSE IF \E n \in 1 .. k : \E p \in 1 .. Len(st.sels[n]) : \E a \in 1 .. Len(o.dist[n]) :
               ~REq(o.dist[n][a][p], IF st.sels[n][p] = a - 1 THEN 1 ELSE 0) \/ Len(o.dist[n]) <= st.sels[n][p] \/ Len(o.dist[n][a]) # Len(st.sels[n])
          THEN "returned distribution is not one-hot at the recorded selections"
     ELSE IF o.mutated # <<>> THEN "the log passed in was modified: " \o ToString(o.mutated)
     ELSE IF ~RNear(o.value, ReplayValue(st), Tol) THEN "replay-method value " \o RStr(o.value) \o " is not the mean reward of the matched rounds " \o RStr(ReplayValue(st))
     ELSE "ok"
  ELSE LET rd == o.log[k + 1] IN
  IF i > Len(o.evs) \/ o.evs[i].k # "select" THEN "round " \o ToString(k) \o " did not start with a selection"
  ELSE IF ~o.cf /\ ~SameSeq(o.evs[i].ctx, rd.ctx) THEN "round " \o ToString(k) \o ": selection saw another context"
  ELSE LET sel == o.evs[i].a
           st2 == StepReplay(st, rd, sel)
           upd == i + 1 <= Len(o.evs) /\ o.evs[i + 1].k = "update"
       IN IF Matches(rd, sel) # upd THEN (IF upd THEN "policy updated in unmatched round " ELSE "policy not updated in matched round ") \o ToString(k)
          ELSE IF ~upd THEN Go(o, k + 1, i + 1, st2)
          ELSE LET u == o.evs[i + 1] IN
               IF u.a # rd.a \/ ~REq(u.r, rd.r) \/ (IF o.cf THEN u.ctx # <<>> ELSE ~SameSeq(u.ctx, rd.ctx))
               THEN "round " \o ToString(k) \o ": policy updated with other data than logged"
               ELSE Go(o, k + 1, i + 2, st2)
Verdict(o) == IF o.err # "" THEN "replay raised: " \o o.err ELSE Go(o, 0, 1, Start)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
