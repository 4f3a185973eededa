------------------------------ MODULE CheckC11 ------------------------------
(* Record: [log, emb, L, method, clf, nops, steps]; a step is a fit followed  *)
(* by a prediction on contexts new: [fits (those of this step), cells,        *)
(* err].  A cell is [i, a, p, v]; fits[k] belongs to the position whose       *)
(* rounds it was trained on.                                                  *)
EXTENDS JudgeBase, Nuisance
Near(a, b) == RNear(a, b, Tol)
Log(o) == IF o.nops THEN [i \in 1 .. Len(o.log) |-> [o.log[i] EXCEPT !.ps = RDiv("1", Len(o.emb))]] ELSE o.log
FitAt(o, st, p) == {k \in 1 .. Len(st.fits) : st.fits[k].rows # <<>> /\ \A j \in 1 .. Len(st.fits[k].rows) : st.fits[k].rows[j].r > 0 /\ o.log[st.fits[k].rows[j].r].p = p}
\* the bag of training rows is exactly that of the position's rounds
Exact(o, st, k, p) ==
  LET want == RegRows(Log(o), o.emb, o.method, Rounds(o.log), p)
      rows == st.fits[k].rows
  IN /\ Len(rows) = Cardinality(want)
     /\ \A w \in want : \E j \in 1 .. Len(rows) : rows[j].r = w.r /\ rows[j].x = w.x /\ REq(rows[j].y, w.y) /\ Near(rows[j].w, w.w)
StepVerdict(o, st) ==
  IF st.err # "" THEN "raised on a valid log: " \o st.err
  ELSE IF \E k \in 1 .. Len(st.fits) : \A p \in 0 .. o.L - 1 : k \notin FitAt(o, st, p) THEN "a base model was trained on rows that are not rounds of a single position"
  ELSE IF \E p \in 0 .. o.L - 1 : Cardinality(FitAt(o, st, p)) # 1 THEN "not exactly one base model trained per position"
  ELSE IF \E p \in 0 .. o.L - 1 : \E k \in FitAt(o, st, p) : ~Exact(o, st, k, p) THEN o.method \o ": training rows are not the position's rounds with their features, rewards and weights"
  ELSE IF Len(st.cells) # Len(o.new) * Len(o.emb) * o.L THEN "malformed prediction"
  ELSE FirstBad([j \in 1 .. Len(st.cells) |->
         LET c == st.cells[j]
             k == CHOOSE q \in FitAt(o, st, c.p) : TRUE
             z == RegPredict(st.fits[k].par, o.new[c.i], o.emb, c.a)
         IN IF Near(c.v, IF o.clf THEN Sigmoid(z) ELSE z) THEN "ok" ELSE "a prediction is not that of its position's model for its context and action"])
Verdict(o) == FirstBad([j \in 1 .. Len(o.steps) |-> StepVerdict(o, o.steps[j])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
