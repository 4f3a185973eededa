------------------------------ MODULE CheckC16 ------------------------------
(* Record: [runs, preds, err].  A run is one network's training as observed   *)
(* from outside: [c, o, rounds, size, iters, shuffle, val (number of held-out *)
(* rounds), theta0, theta1, name].  Which rounds are held out and in which    *)
(* order shuffled rounds come is the learner's choice: some choice must       *)
(* explain the parameters.  preds: [x, out] answers of the trained policy,    *)
(* judged against its own parameters.                                         *)
EXTENDS JudgeBase, Train, SequencesExt
Fine == "1/50000"
RECURSIVE OrderedParts(_, _)
SubsetsOf(S, k) == IF k = 0 THEN {{}} ELSE {T \in SUBSET S : Cardinality(T) = k}
OrderedParts(S, b) == IF Cardinality(S) <= b THEN {<<S>>} ELSE UNION {{<<T>> \o rest : rest \in OrderedParts(S \ T, b)} : T \in SubsetsOf(S, b)}
SetToSeqAsc(S) == SetToSortSeq(S, LAMBDA i, j : i < j)
Rows(r, part) == [b \in 1 .. Len(part) |-> LET s == SetToSeqAsc(part[b]) IN [i \in 1 .. Len(s) |-> r.rounds[s[i]]]]
InOrder(r, S) == LET s == SetToSeqAsc(S) IN Cut([i \in 1 .. Len(s) |-> r.rounds[s[i]]], r.size)
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : RNear(a[k], b[k], Fine)
Explains(r, st) == st.amb \/ Same(st.theta, r.theta1)
\* ways to present training set S in one epoch
Ways(r, S) == IF Cardinality(S) <= r.size THEN {Rows(r, <<S>>)}
              ELSE IF r.shuffle \/ r.val > 0 THEN {Rows(r, pt) : pt \in OrderedParts(S, r.size)} ELSE {InOrder(r, S)}
VWays(r, V) == IF V = {} THEN {<<>>} ELSE IF Cardinality(V) <= r.size THEN {Rows(r, <<V>>)} ELSE {Rows(r, pt) : pt \in OrderedParts(V, r.size)}
\* shuffled anew in every epoch
RECURSIVE Search(_, _, _, _, _)
Search(r, st, S, V, left) ==
  IF left = 0 \/ st.stop THEN Explains(r, st)
  ELSE \E w \in Ways(r, S), v \in VWays(r, V) : Search(r, OverBatches(r.c, r.o, OverBatches(r.c, r.o, st, w, TRUE), v, FALSE), S, V, left - 1)
\* the same order in every epoch
Steady(r, S, V) == \E w \in Ways(r, S), v \in VWays(r, V) : Explains(r, Fit(r.c, r.o, Start(r.theta0), [e \in 1 .. r.iters |-> [tr |-> w, va |-> v]]))
Split(r, V) == LET S == (1 .. Len(r.rounds)) \ V IN IF r.shuffle /\ (Cardinality(S) > r.size \/ Cardinality(V) > r.size) THEN Search(r, Start(r.theta0), S, V, r.iters) ELSE Steady(r, S, V)
\* rounding of the size of single precision alone moves the result: such a run cannot be told
Nudged(th, sg) == RSeq([k \in 1 .. Len(th) |-> RAdd(RMul(th[k], IF (k % 2) = sg THEN "1000001/1000000" ELSE "999999/1000000"), IF (k % 3) = sg THEN "1/2000000" ELSE "-1/2000000")])
Shaky(r) == \E V \in {1 .. r.val, (Len(r.rounds) - r.val + 1) .. Len(r.rounds)} :
  LET S == (1 .. Len(r.rounds)) \ V
      ep == [e \in 1 .. r.iters |-> [tr |-> InOrder(r, S), va |-> IF V = {} THEN <<>> ELSE InOrder(r, V)]]
      end(th) == Fit(r.c, r.o, Start(th), ep).theta
      a == end(r.theta0) IN \E sg \in {0, 1} : LET b == end(Nudged(r.theta0, sg)) IN \E k \in 1 .. Len(a) : ~RFin(a[k]) \/ ~RFin(b[k]) \/ ~RNear(a[k], b[k], Fine)
RunVerdict(r) ==
  IF Len(r.theta0) # Size(r.c.dims) \/ Len(r.theta1) # Size(r.c.dims) THEN r.name \o ": the network does not have the configured layers"
  ELSE IF \E V \in SubsetsOf(1 .. Len(r.rounds), r.val) : Split(r, V) THEN "ok"
  ELSE IF \E k \in 1 .. Len(r.theta1) : ~RFin(r.theta1[k]) THEN r.name \o ": parameters are not numbers after training"
  ELSE IF Shaky(r) THEN "ok"
  ELSE r.name \o ": trained parameters are not those of gradient steps on the stated objective over the training rounds"
PredVerdict(o, p) ==
  LET r == o.runs[Len(o.runs)]
      z == Output(r.theta1, r.c.dims, r.c.f, p.x)
      want == IF r.c.obj \in Discrete THEN Probs(z) ELSE <<Clamp(r.c, z[1])>>
  IN IF ~Same(want, p.out) THEN "predictions are not the network's output (within the output range)"
     ELSE IF r.c.obj \in Discrete /\ ~(RNear(RSum(p.out), "1", "1/100000") /\ \A a \in 1 .. Len(p.out) : RLe("0", p.out[a])) THEN "choice probabilities do not form a distribution"
     ELSE IF r.c.obj \notin Discrete /\ r.c.lo # "none" /\ ~(RLe(r.c.lo, RAdd(p.out[1], "1/1000000")) /\ RLe(p.out[1], RAdd(r.c.hi, "1/1000000"))) THEN "a predicted action lies outside the output range"
     ELSE "ok"
Sane(o) == \A j \in 1 .. Len(o.runs) : \A k \in 1 .. Len(o.runs[j].theta1) : RFin(o.runs[j].theta1[k]) /\ RLt(RAbs(o.runs[j].theta1[k]), 1000)
\* runs of one configuration with shuffling: some run must not be explained by one order kept in every epoch
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
InThe(r, rows) == Fit(r.c, r.o, Start(r.theta0), [e \in 1 .. r.iters |-> [tr |-> Cut(rows, r.size), va |-> <<>>]])
Telling(r) == LET a == InThe(r, r.rounds)
                  b == InThe(r, Rev(r.rounds)) IN ~a.amb /\ ~b.amb /\ \E k \in 1 .. Len(a.theta) : RLt("1/1000", RAbs(RSub(a.theta[k], b.theta[k])))
Shuffled(o) == LET t == {j \in 1 .. Len(o.runs) : Telling(o.runs[j])} IN
  IF Cardinality(t) >= 4 /\ \A j \in t : Steady(o.runs[j], 1 .. Len(o.runs[j].rounds), {}) THEN o.name \o ": rounds are not shuffled in every epoch" ELSE "ok"
Verdict(o) ==
  IF o.err # "" THEN o.name \o ": raised on valid data: " \o o.err
  ELSE LET v == FirstBad([j \in 1 .. Len(o.runs) |-> IF j > 1 /\ ~Has(o, "shuffled") /\ ~\A k \in 1 .. Len(o.runs[1].theta1) : RFin(o.runs[1].theta1[k]) /\ RLt(RAbs(o.runs[1].theta1[k]), 50) THEN "ok" ELSE RunVerdict(o.runs[j])]) IN
       IF v # "ok" \/ ~Sane(o) THEN v ELSE IF Has(o, "shuffled") THEN Shuffled(o) ELSE FirstBad([j \in 1 .. Len(o.preds) |-> PredVerdict(o, o.preds[j])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
