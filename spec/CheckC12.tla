------------------------------ MODULE CheckC12 ------------------------------
(* Record: [log, L, K, d (context size), method, steps]; a step is one fit    *)
(* and one prediction: [fits (in order), new (slates to predict), q (numbers  *)
(* by slate, slot, action), err].                                             *)
EXTENDS JudgeBase, SlateReg
Near(a, b) == RNear(a, b, Tol)
\* the slot of a fit, from the number of its features
SlotOf(o, f) == Len(f.par.c) - o.d
FitsAt(o, st, l) == {k \in 1 .. Len(st.fits) : SlotOf(o, st.fits[k]) = l}
FitOf(o, st, l) == CHOOSE k \in FitsAt(o, st, l) : TRUE
RowOK(o, st, l, row) ==
  /\ row.r \in 1 .. Len(o.log)
  /\ LET s == o.log[row.r] IN
     /\ \A j \in 1 .. Len(row.x) : REq(row.x[j], Features(s, l, s.a[l])[j])
     /\ Near(row.y, Target(s, l, IF l = o.L THEN [b |-> "0", c |-> <<>>] ELSE st.fits[FitOf(o, st, l + 1)].par))
     /\ Near(row.w, Weight(o.method, s, l))
Whole(o, rows) == Len(rows) = Len(o.log) /\ Cardinality({rows[j].r : j \in 1 .. Len(rows)}) = Len(o.log)
StepVerdict(o, st) ==
  IF st.err # "" THEN "raised on a valid log: " \o st.err
  ELSE IF Len(st.fits) # o.L \/ \E l \in 1 .. o.L : Cardinality(FitsAt(o, st, l)) # 1 THEN "not exactly one model fitted per slot"
  ELSE IF \E l \in 1 .. o.L : ~Whole(o, st.fits[FitOf(o, st, l)].rows) THEN "a slot's model was not fitted on every slate once"
  ELSE IF \E l \in 1 .. o.L : \E j \in 1 .. Len(o.log) : ~RowOK(o, st, l, st.fits[FitOf(o, st, l)].rows[j]) THEN o.method \o ": a slot's training rows are not the logged prefix with the Bellman target and weight"
  ELSE IF Len(st.q) # Len(st.new) \/ \E i \in 1 .. Len(st.q) : Len(st.q[i]) # o.L THEN "malformed prediction"
  ELSE IF \E i \in 1 .. Len(st.new) : \E l \in 1 .. o.L : \E a \in 1 .. o.K : ~Near(st.q[i][l][a], QValue(st.fits[FitOf(o, st, l)].par, st.new[i], l, a - 1)) THEN "a prediction is not its slot's model at the logged prefix and the action"
  ELSE "ok"
Verdict(o) == FirstBad([j \in 1 .. Len(o.steps) |-> StepVerdict(o, o.steps[j])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
