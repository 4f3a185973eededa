------------------------------ MODULE CheckC10 ------------------------------
(* Record: [tgt ("reg", "iw", "ps"), log, emb, L, nf, clf, warm, method,      *)
(* fits, cells, err]; a cell is [i, a, p, v, k]: returned number v for round  *)
(* i, action a, position p and the fit k whose model produced it (0: none     *)
(* did).  Records "isolated" hold two cross-fitted answers for one round on   *)
(* logs that differ only in that round's own outcome.                         *)
EXTENDS JudgeBase, Nuisance
Near(a, b) == RNear(a, b, Tol)
IndexIn(s, v) == CHOOSE j \in 1 .. Len(s) : s[j] = v
Softmax(par, x, a) ==
  IF ~\E j \in 1 .. Len(par.cls) : par.cls[j] = a THEN "0"
  ELSE LET e == RSeq([j \in 1 .. Len(par.cls) |-> RExp(Affine(par.b[j], par.c[j], x))]) IN RDiv(e[IndexIn(par.cls, a)], RSum(e))
Predicted(o, c) ==
  LET par == o.fits[c.k].par
      x == o.log[c.i].x
      z == Affine(par.b, par.c, x \o o.emb[c.a + 1])
  IN CASE o.tgt = "reg" -> IF o.clf THEN Sigmoid(z) ELSE z
       [] o.tgt = "iw" -> RExp(z)
       [] o.tgt = "ps" -> Softmax(par, x, c.a)
\* rows a fit is handed: features of its own round, the round's own action
RowOK(o, row) ==
  /\ row.r \in Rounds(o.log)
  /\ LET rd == o.log[row.r] IN
     CASE o.tgt = "reg" -> row.x = rd.x \o o.emb[rd.a + 1] /\ REq(row.y, rd.r) /\ Near(row.w, RegWeight(o.method, rd))
       [] o.tgt = "ps" -> row.x = rd.x /\ REq(row.y, rd.a)
       [] o.tgt = "iw" -> IF REq(row.y, "0") THEN row.x = rd.x \o o.emb[rd.a + 1]
                          ELSE IF o.method = "raw" THEN row.x = rd.x \o [j \in 1 .. Len(rd.pi) |-> rd.pi[j][rd.p + 1]]
                          ELSE \E b \in 1 .. Len(o.emb) : RLt("0", rd.pi[b][rd.p + 1]) /\ row.x = rd.x \o o.emb[b]
TrainedAt(o, k, p) == \A j \in 1 .. Len(o.fits[k].rows) : o.log[o.fits[k].rows[j].r].p = p
Ids(o, k) == [j \in 1 .. Len(o.fits[k].rows) |-> <<o.fits[k].rows[j].r, IF o.tgt = "iw" THEN o.fits[k].rows[j].y ELSE "0">>]
NoRepeat(o, k) == Cardinality({Ids(o, k)[j] : j \in 1 .. Len(Ids(o, k))}) = Len(o.fits[k].rows)
\* both samples of an importance-weight fit come from the same rounds
Balanced(o, k) == o.tgt = "iw" => \A r \in Knows(o.fits, k, FALSE) : Cardinality({j \in 1 .. Len(o.fits[k].rows) : o.fits[k].rows[j].r = r}) = 2
CellVerdict(o, c) ==
  IF c.k = 0 THEN o.tgt \o ": a returned number is not the prediction of any fitted model for that round, action and position"
  ELSE IF ~Near(c.v, Predicted(o, c)) THEN o.tgt \o ": a returned number is not its model's prediction"
  ELSE IF ~\A j \in 1 .. Len(o.fits[c.k].rows) : RowOK(o, o.fits[c.k].rows[j]) THEN o.tgt \o ": a model was fitted on rows that are not rounds of the log with their own action and outcome"
  ELSE IF ~TrainedAt(o, c.k, c.p) THEN o.tgt \o ": a model was fitted on rounds of another position"
  ELSE IF ~NoRepeat(o, c.k) \/ ~Balanced(o, c.k) THEN o.tgt \o ": a round enters a fit other than once"
  ELSE IF ~Knows(o.fits, c.k, o.warm) \subseteq Knows(o.fits, c.k, FALSE) THEN o.tgt \o ": a fit did not start from a fresh model"
  ELSE IF o.nf > 1 /\ c.i \in Knows(o.fits, c.k, o.warm) THEN o.tgt \o ": a round was predicted by a model trained on it"
  ELSE "ok"
CellsOf(o, i) == {j \in 1 .. Len(o.cells) : o.cells[j].i = i}
KnownFor(o, i) == UNION {Knows(o.fits, o.cells[j].k, FALSE) : j \in CellsOf(o, i)}
\* rounds held out for round i, among those whose training the returned numbers reveal
Scope(o, i) == IF o.tgt = "reg" \/ o.L = 1 THEN Rounds(o.log) ELSE {j \in Rounds(o.log) : o.log[j].p = o.log[i].p}
HeldOut(o, i) == Scope(o, i) \ KnownFor(o, i)
Folds(o) ==
  LET h == RSeq([i \in 1 .. Len(o.log) |-> HeldOut(o, i)]) IN
  IF o.nf = 1 THEN (IF \A i \in 1 .. Len(o.log) : h[i] = {} THEN "ok" ELSE o.tgt \o ": the single fit did not use the whole log")
  ELSE IF o.tgt = "reg" \/ o.L = 1 THEN (IF Partition(Len(o.log), h, o.nf) THEN "ok" ELSE o.tgt \o ": held-out sets are not a partition into the requested folds")
  ELSE IF \A i \in 1 .. Len(o.log) : i \in h[i] /\ \A j \in h[i] : h[j] = h[i] THEN "ok" ELSE o.tgt \o ": held-out sets are not a partition"
\* out-of-fold labels y and probabilities v kept for judging the model: entry of round i by fit k (feature b of a drawn action)
DiagOk(o, e) ==
  IF e.i = 0 THEN "an entry is not a model's answer for a round of the log"
  ELSE LET par == o.fits[e.k].par
           rd == o.log[e.i]
           ft == IF REq(e.y, "0") THEN o.emb[rd.a + 1] ELSE IF o.method = "raw" THEN [j \in 1 .. Len(rd.pi) |-> rd.pi[j][rd.p + 1]] ELSE o.emb[e.b] IN
  IF ~TrainedAt(o, e.k, rd.p) THEN "an entry comes from the model of another position"
  ELSE IF e.i \in Knows(o.fits, e.k, o.warm) THEN "an entry comes from a model trained on its round"
  ELSE IF o.tgt = "ps" THEN (IF REq(e.y, rd.a) /\ \A j \in 1 .. Len(e.v) : Near(e.v[j], Softmax(par, rd.x, par.cls[j])) THEN "ok" ELSE "an entry is not its model's answer")
  ELSE IF Near(e.v[1], Sigmoid(Affine(par.b, par.c, rd.x \o ft))) THEN "ok" ELSE "an entry is not its model's answer"
Diag(o) ==
  LET v == FirstBad([j \in 1 .. Len(o.diag) |-> DiagOk(o, o.diag[j])])
      want == IF o.tgt = "ps" THEN {<<i, TRUE>> : i \in Rounds(o.log)} ELSE Rounds(o.log) \X {TRUE, FALSE}
      got == {<<o.diag[j].i, o.tgt = "ps" \/ REq(o.diag[j].y, "0")>> : j \in 1 .. Len(o.diag)} IN
  IF v # "ok" THEN o.tgt \o " out-of-fold results: " \o v
  ELSE IF got # want \/ Len(o.diag) # Cardinality(want) THEN o.tgt \o " out-of-fold results: not every round once" ELSE "ok"
\* calibration with cv folds: at every position, cv models each trained without one part of that position's examples
FitSet(f) == {<<f[j].r, f[j].y>> : j \in 1 .. Len(f)}
AtPos(o, p) == {i \in 1 .. o.n : o.pos[i] = p}
Calibrated(o) ==
  IF o.err # "" THEN o.tgt \o ": calibrated fit raised on a valid log: " \o o.err
  ELSE IF \E k \in 1 .. Len(o.res) : ~RFin(o.res[k]) \/ ~RLe(0, o.res[k]) \/ (o.tgt = "ps" /\ ~RLe(o.res[k], 1)) THEN o.tgt \o ": a calibrated estimate is not a number in its range"
  ELSE IF \E k \in 1 .. Len(o.fits) : ~\E p \in 0 .. o.L - 1 : \A j \in 1 .. Len(o.fits[k]) : o.fits[k][j].r \in AtPos(o, p) THEN o.tgt \o ": a model was fitted on rounds of several positions"
  ELSE FirstBad([pp \in 1 .. o.L |->
    LET all == IF o.tgt = "ps" THEN AtPos(o, pp - 1) ELSE AtPos(o, pp - 1) \X {"0", "1"}
        ex(f) == IF o.tgt = "ps" THEN {f[j].r : j \in 1 .. Len(f)} ELSE FitSet(f)
        mine == {k \in 1 .. Len(o.fits) : ex(o.fits[k]) # {} /\ ex(o.fits[k]) \subseteq all /\ ex(o.fits[k]) # all}
        held == {all \ ex(o.fits[k]) : k \in mine} IN
    IF Cardinality(mine) = o.cv /\ UNION held = all /\ (\A a, b \in held : a = b \/ a \cap b = {}) /\ Cardinality(held) = o.cv THEN "ok"
    ELSE o.tgt \o ": the calibration does not hold out each example of a position once in " \o ToString(o.cv) \o " folds"])
Fit(o) ==
  IF o.err # "" THEN o.tgt \o ": raised on a valid log: " \o o.err
  ELSE IF o.shape # "ok" THEN o.tgt \o ": malformed answer " \o o.shape
  ELSE LET v == FirstBad([j \in 1 .. Len(o.cells) |-> CellVerdict(o, o.cells[j])]) IN IF v # "ok" THEN v
       ELSE LET w == Folds(o) IN IF w # "ok" \/ ~Has(o, "diag") THEN w ELSE Diag(o)
Isolated(o) ==
  IF o.err # "" THEN o.tgt \o ": raised on a valid log: " \o o.err
  ELSE IF Len(o.a) = Len(o.b) /\ \A j \in 1 .. Len(o.a) : RNear(o.a[j], o.b[j], "1/1000000000000") THEN "ok"
  ELSE o.tgt \o ": the cross-fitted prediction of a round depends on that round's own outcome"
Verdict(o) == IF o.kind = "calibrated" THEN Calibrated(o) ELSE IF o.kind = "isolated" THEN Isolated(o) ELSE Fit(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
