------------------------------ MODULE CheckC23 ------------------------------
(* record: rows (file order), full / parts (logs as sequences of [a,p,r,ps,x]*)
(* with n, K), test, splits, boots, onp (on-policy values), actx, items      *)
EXTENDS JudgeBase, RealLog
SameX(x, y) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : REq(x[i], y[i])
SameRow(g, e) == g.a = e.a /\ g.p = e.p /\ REq(g.r, e.r) /\ RNear(g.ps, e.ps, Tol) /\ SameX(g.x, e.x)
(* propensities are unique in the generated files: they identify the row *)
RowOf(o, g) == CHOOSE i \in 1 .. Len(o.rows) : RNear(o.rows[i].ps, g.ps, Tol)
Known(o, g) == \E i \in 1 .. Len(o.rows) : RNear(o.rows[i].ps, g.ps, Tol)
Intact(o, exp, log, what) == FirstBad([k \in 1 .. Len(log) |->
   IF ~Known(o, log[k]) THEN what \o ": row " \o ToString(k) \o " has a propensity that is not in the file"
   ELSE IF ~SameRow(log[k], exp[RowOf(o, log[k])]) THEN what \o ": row " \o ToString(k) \o " mixes fields of different rows"
   ELSE "ok"])
Idx(o, log) == [k \in 1 .. Len(log) |-> RowOf(o, log[k])]
MeanR(log) == RDiv(RSum([k \in 1 .. Len(log) |-> log[k].r]), Len(log))
SameLog(s, t) == Len(s) = Len(t) /\ \A k \in 1 .. Len(s) : SameRow(s[k], t[k])
FullOk(o, exp) ==
  LET v == Intact(o, exp, o.full, "full log")
      ix == Idx(o, o.full) IN
  IF v # "ok" THEN v
  ELSE IF Len(ix) # Len(o.rows) \/ {ix[k] : k \in 1 .. Len(ix)} # 1 .. Len(o.rows) THEN "loading loses or duplicates rows"
  ELSE IF ~Sorted([k \in 1 .. Len(ix) |-> o.rows[ix[k]]]) THEN "the loaded log is not in time order"
  ELSE IF o.K # NActions(o.rows) \/ o.L # Cardinality(Positions(o.rows)) THEN "wrong number of actions or positions"
  ELSE "ok"
SplitOk(o, s) ==
  LET n == Len(o.full)
      x == RMul(n, RSub(1, s.test))
      lo == RFloor(RSub(x, Tol))
      hi == RFloor(RAdd(x, Tol)) IN
  IF s.err # "" THEN "split raised: " \o s.err
  ELSE IF s.ntrain # Len(s.train) \/ s.ntest # Len(s.tst) THEN "n_rounds of a part is not its number of rows"
  ELSE IF ~(Len(s.train) \in {lo, hi}) /\ ~(lo < 0 /\ Len(s.train) = 0) THEN "training part has " \o ToString(Len(s.train)) \o " rows, requested " \o RStr(x)
  ELSE IF ~SameLog(s.train \o s.tst, o.full) THEN "the two parts are not the log cut in time order"
  ELSE IF s.K # o.K THEN "parts disagree on the number of actions"
  ELSE IF s.onp # "" /\ s.tst # <<>> /\ ~RNear(s.onp, MeanR(s.tst), Tol) THEN "on-policy value is not the mean reward of the test part"
  ELSE "ok"
BootOk(o, exp, b) ==
  LET v == Intact(o, exp, b.log, "bootstrap sample")
      src == {RowOf(o, b.src[k]) : k \in 1 .. Len(b.src)}
      ix == Idx(o, b.log) IN
  IF b.err # "" THEN "bootstrap raised: " \o b.err
  ELSE IF v # "ok" THEN v
  ELSE IF b.n # Len(b.log) \/ Len(b.log) # b.size THEN "bootstrap sample has the wrong size"
  ELSE IF \E k \in 1 .. Len(ix) : ix[k] \notin src THEN "bootstrap sample contains rows outside the sampled part"
  ELSE IF ~b.same THEN "the same seed does not reproduce the same sample"
  ELSE IF Len(b.log) >= 45 /\ Len(b.src) <= Len(b.log) + 5 /\ Cardinality({ix[k] : k \in 1 .. Len(ix)}) = Len(ix) THEN "bootstrap draws without replacement"
  ELSE "ok"
ItemsOk(o) == IF \E i \in 1 .. Len(o.items) : ~SameX(o.actx[i], o.items[i]) THEN "action context does not describe the items" ELSE "ok"
Verdict(o) ==
  IF o.err # "" THEN "loading raised: " \o o.err
  ELSE LET exp == [i \in 1 .. Len(o.rows) |-> Exposed(o.rows, o.rows[i])]
           f == FullOk(o, exp) IN
  IF f # "ok" THEN f
  ELSE IF ~RNear(o.onp, MeanR(o.full), Tol) THEN "on-policy value is not the mean reward"
  ELSE FirstBad([i \in 1 .. Len(o.splits) |-> SplitOk(o, o.splits[i])] \o [i \in 1 .. Len(o.boots) |-> BootOk(o, exp, o.boots[i])]
       \o <<ItemsOk(o), IF SameLog(o.again, o.full) THEN "ok" ELSE "sampling changed the stored log">>)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
