------------------------------ MODULE CheckC08 ------------------------------
(* Records "spy": log (tokens), avg, ests, calls, each [op, args, opts, out,  *)
(* err], touched.  Records "real": rows [name, m, d] of numbers obtained      *)
(* through the evaluator and by calling the estimator directly.               *)
EXTENDS JudgeBase, Meta
Names(o) == {o.ests[k].name : k \in 1 .. Len(o.ests)}
Near(a, b) == IF RFin(a) /\ RFin(b) THEN RNear(a, b, Tol) ELSE (a = b)
Row(o, c, e) ==
  LET v == ValueOf(e, o.log, c.args) IN
  CASE c.op = "values" -> <<v>>
    [] c.op = "intervals" -> <<v, RSub(v, c.opts.alpha), RAdd(v, RAdd(c.opts.B, c.opts.rs))>>
    [] c.op = "summary" -> <<v, Relative(v, o.avg), v, RSub(v, c.opts.alpha), RAdd(v, RAdd(c.opts.B, c.opts.rs))>>
    [] c.op = "performance" -> <<IF c.opts.metric = "se" THEN SquaredError(v, c.opts.gt) ELSE RelativeError(v, c.opts.gt)>>
    [] c.op = "plot" -> <<IF c.opts.rel THEN RDiv(v, o.avg) ELSE v>>
CallVerdict(o, c) ==
  IF c.err # "" THEN o.fam \o " evaluator, " \o c.op \o ": raised on valid input: " \o c.err
  ELSE IF {c.out[k].name : k \in 1 .. Len(c.out)} # Names(o) \/ Len(c.out) # Len(o.ests) THEN o.fam \o " evaluator, " \o c.op \o ": answers are not one per estimator"
  ELSE FirstBad([k \in 1 .. Len(o.ests) |->
         LET e == o.ests[k]
             got == c.out[CHOOSE j \in 1 .. Len(c.out) : c.out[j].name = e.name].row
             want == Row(o, c, e)
         IN IF Len(got) # Len(want) THEN o.fam \o " evaluator, " \o c.op \o ": malformed answer for " \o e.name
            ELSE IF \A j \in 1 .. Len(want) : Near(got[j], want[j]) THEN "ok"
            ELSE o.fam \o " evaluator, " \o c.op \o ": answer for " \o e.name \o " is not the estimator's own on its own inputs"])
Spy(o) ==
  IF o.touched # "" THEN o.fam \o " evaluator: the caller's inputs were modified: " \o o.touched
  ELSE FirstBad([k \in 1 .. Len(o.calls) |-> CallVerdict(o, o.calls[k])])
Real(o) ==
  IF o.err # "" THEN o.fam \o " evaluator raised where every estimator answers: " \o o.err
  ELSE FirstBad([k \in 1 .. Len(o.rows) |->
         LET r == o.rows[k] IN
         IF Len(r.m) = Len(r.d) /\ \A j \in 1 .. Len(r.d) : Near(r.m[j], r.d[j]) THEN "ok"
         ELSE o.fam \o " evaluator: " \o r.name \o " differs from the estimator called directly"])
Verdict(o) == IF o.kind = "spy" THEN Spy(o) ELSE Real(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
