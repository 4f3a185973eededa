------------------------------- MODULE Train -------------------------------
(* Training of the neural learners (obp/policy/offline.py:NNPolicyLearner,    *)
(* QFuncEstimator; obp/policy/offline_continuous.py): a multi-layer           *)
(* perceptron is moved by mini-batch gradient steps until max_iter epochs     *)
(* have passed or the loss stops improving.                                   *)
(* Parameters are one flat sequence theta (per layer: weights row by row,     *)
(* then biases); dims = <<inputs, hidden..., outputs>>.  A round is           *)
(* [x, a, r, ps].                                                             *)
EXTENDS Num, Integers, Sequences, FiniteSets
\* ------------------------------------------------------------------ network
RECURSIVE Off(_, _)
Off(dims, l) == IF l = 1 THEN 0 ELSE Off(dims, l - 1) + dims[l] * (dims[l - 1] + 1)
Size(dims) == Off(dims, Len(dims))
W(theta, dims, l, o, i) == theta[Off(dims, l) + (o - 1) * dims[l] + i]
B(theta, dims, l, o) == theta[Off(dims, l) + dims[l] * dims[l + 1] + o]
Act(f, z) == CASE f = "identity" -> z
              [] f = "logistic" -> RDiv("1", RAdd("1", RExp(RNeg(z))))
              [] f = "tanh" -> RTanh(z)
              [] f = "relu" -> RMax("0", z)
              [] f = "elu" -> IF RLt("0", z) THEN z ELSE RSub(RExp(z), "1")
ActD(f, z, h) == CASE f = "identity" -> "1"
                  [] f = "logistic" -> RMul(h, RSub("1", h))
                  [] f = "tanh" -> RSub("1", RSq(h))
                  [] f = "relu" -> IF RLt("0", z) THEN "1" ELSE "0"
                  [] f = "elu" -> IF RLt("0", z) THEN "1" ELSE RAdd(h, "1")
\* the layers' inputs i, pre-activations z and outputs h
RECURSIVE Fwd(_, _, _, _, _)
Fwd(theta, dims, f, h, l) ==
  IF l = Len(dims) THEN <<>>
  ELSE LET z == RSeq([o \in 1 .. dims[l + 1] |-> RTrim(RAdd(B(theta, dims, l, o), RSum([i \in 1 .. dims[l] |-> RMul(W(theta, dims, l, o, i), h[i])])))])
           a == IF l + 1 = Len(dims) THEN z ELSE RSeq([o \in 1 .. dims[l + 1] |-> RTrim(Act(f, z[o]))])
       IN <<[i |-> h, z |-> z, h |-> a]>> \o Fwd(theta, dims, f, a, l + 1)
Trace(theta, dims, f, x) == RSeq(Fwd(theta, dims, f, x, 1))
Output(theta, dims, f, x) == LET t == Trace(theta, dims, f, x) IN t[Len(t)].h
\* derivative with respect to a layer's input, given that d is the one with respect to its output
ToInput(theta, dims, l, d) == RSeq([i \in 1 .. dims[l] |-> RTrim(RSum([o \in 1 .. dims[l + 1] |-> RMul(d[o], W(theta, dims, l, o, i))]))])
LayerGrad(dims, l, h, d) == RSeq([k \in 1 .. dims[l + 1] * (dims[l] + 1) |->
  IF k <= dims[l] * dims[l + 1] THEN RTrim(RMul(d[((k - 1) \div dims[l]) + 1], h[((k - 1) % dims[l]) + 1])) ELSE d[k - dims[l] * dims[l + 1]]])
\* flat gradient of the parameters up to layer l
RECURSIVE Bwd(_, _, _, _, _, _)
Bwd(theta, dims, f, t, l, d) ==
  LET g == LayerGrad(dims, l, t[l].i, d) IN
  IF l = 1 THEN g
  ELSE LET dh == ToInput(theta, dims, l, d)
           dz == RSeq([i \in 1 .. dims[l] |-> RTrim(RMul(dh[i], ActD(f, t[l - 1].z[i], t[l - 1].h[i])))])
       IN Bwd(theta, dims, f, t, l - 1, dz) \o g
RECURSIVE InputGrad(_, _, _, _, _, _)
InputGrad(theta, dims, f, t, l, d) ==
  LET dh == ToInput(theta, dims, l, d) IN
  IF l = 1 THEN dh ELSE InputGrad(theta, dims, f, t, l - 1, RSeq([i \in 1 .. dims[l] |-> RTrim(RMul(dh[i], ActD(f, t[l - 1].z[i], t[l - 1].h[i])))]))
Back(theta, dims, f, t, d) == Bwd(theta, dims, f, t, Len(dims) - 1, d)
\* a kink of the activation is too close for the computation to tell its side
Kink(f, t) == f = "relu" /\ \E l \in 1 .. Len(t) - 1 : \E j \in 1 .. Len(t[l].z) : RLt(RAbs(t[l].z[j]), "1/100000")
Probs(z) == LET m == z[CHOOSE a \in 1 .. Len(z) : \A b \in 1 .. Len(z) : RLe(z[b], z[a])]
                e == RSeq([a \in 1 .. Len(z) |-> RExp(RSub(z[a], m))])
                s == RTrim(RSum(e)) IN RSeq([a \in 1 .. Len(z) |-> RTrim(RDiv(e[a], s))])
\* ---------------------------------------------------------------- objectives
\* c: [obj, lambda, preg, vreg, bw, lo, hi (output range), theta, dims, f of the reward network (q...)]
Discrete == {"dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"}
Iw(p, rd) == RDiv(p[rd.a + 1], rd.ps)
\* derivative of the objective's weight with respect to log pi(a|x), divided by the reward
Shrunk(c, w) ==
  CASE c.obj = "ipw-os" -> RDiv(RMul(RMul(c.lambda, w), RSub(c.lambda, RSq(w))), RSq(RAdd(RSq(w), c.lambda)))
    [] c.obj = "ipw-subgauss" -> RDiv(RMul(RSub("1", c.lambda), w), RSq(RAdd(RSub("1", c.lambda), RMul(c.lambda, w))))
    [] OTHER -> w
Qhat(c, x) == Output(c.qtheta, c.qdims, c.qf, x)
\* coefficients of log pi(.|x) in the policy-gradient estimate of one round (held fixed in a step)
Coef(c, p, rd) ==
  LET K == Len(p)
      q == IF c.obj \in {"dm", "dr"} THEN Qhat(c, rd.x) ELSE p
      at == CASE c.obj = "dm" -> "0"
              [] c.obj = "snipw" -> RMul(Iw(p, rd), RSub(rd.r, c.lambda))
              [] c.obj = "dr" -> RMul(Iw(p, rd), RSub(rd.r, q[rd.a + 1]))
              [] OTHER -> RMul(Shrunk(c, Iw(p, rd)), rd.r)
  IN RSeq([a \in 1 .. K |-> RTrim(RAdd(IF a = rd.a + 1 THEN at ELSE "0", IF c.obj \in {"dm", "dr"} THEN RMul(q[a], p[a]) ELSE "0"))])
\* the objective itself: estimated value of the policy on one round
Value(c, p, rd) ==
  LET q == IF c.obj \in {"dm", "dr"} THEN Qhat(c, rd.x) ELSE p
      w == Iw(p, rd)
      dm == RDot(q, p)
  IN CASE c.obj = "ipw" -> RMul(w, rd.r)
       [] c.obj = "dm" -> dm
       [] c.obj = "dr" -> RAdd(RMul(w, RSub(rd.r, q[rd.a + 1])), dm)
       [] c.obj = "snipw" -> RMul(w, RSub(rd.r, c.lambda))
       [] c.obj = "ipw-os" -> RMul(RDiv(RMul(c.lambda, w), RAdd(RSq(w), c.lambda)), rd.r)
       [] c.obj = "ipw-subgauss" -> RMul(RDiv(w, RAdd(RSub("1", c.lambda), RMul(c.lambda, w))), rd.r)
Gauss(v) == RDiv(RExp(RNeg(RDiv(RSq(v), 2))), RSqrt(RMul(2, RPi)))
Clamp(c, u) == IF c.lo = "none" THEN u ELSE RMin(c.hi, RMax(c.lo, u))
\* continuous actions: estimated value of playing u in a round, and its derivative
CQ(c, x, u) == Output(c.qtheta, c.qdims, c.qf, Append(x, u))[1]
CQD(c, x, u) == LET t == Trace(c.qtheta, c.qdims, c.qf, Append(x, u)) IN InputGrad(c.qtheta, c.qdims, c.qf, t, Len(c.qdims) - 1, <<"1">>)[Len(x) + 1]
CValue(c, rd, u) ==
  LET v == RDiv(RSub(u, rd.a), c.bw)
      k == RDiv(Gauss(v), RMul(rd.ps, c.bw)) IN
  CASE c.obj = "c-ipw" -> RMul(k, rd.r)
    [] c.obj = "c-dpg" -> CQ(c, rd.x, u)
    [] c.obj = "c-dr" -> LET qh == CQ(c, rd.x, u) IN RAdd(RMul(k, RSub(rd.r, qh)), qh)
CValueD(c, rd, u) ==
  LET v == RDiv(RSub(u, rd.a), c.bw)
      k == RDiv(Gauss(v), RMul(rd.ps, c.bw))
      kd == RNeg(RDiv(RMul(k, v), c.bw)) IN
  CASE c.obj = "c-ipw" -> RMul(kd, rd.r)
    [] c.obj = "c-dpg" -> CQD(c, rd.x, u)
    [] c.obj = "c-dr" -> LET qh == CQ(c, rd.x, u)
                             qd == CQD(c, rd.x, u) IN RAdd(RAdd(RMul(kd, RSub(rd.r, qh)), RNeg(RMul(k, qd))), qd)
Mean(s) == RDiv(RSum(s), Len(s))
\* loss of a batch (a sequence of rounds) and its flat gradient; amb: a kink was too close
SumGrads(gs, n) == RSeq([k \in 1 .. n |-> RTrim(RSum([i \in 1 .. Len(gs) |-> gs[i][k]]))])
DiscreteEval(c, theta, batch) ==
  LET n == Len(batch)
      t == RSeq([i \in 1 .. n |-> Trace(theta, c.dims, c.f, batch[i].x)])
      p == RSeq([i \in 1 .. n |-> Probs(t[i][Len(t[i])].z)])
      co == RSeq([i \in 1 .. n |-> Coef(c, p[i], batch[i])])
      g == RSeq([i \in 1 .. n |-> RTrim(RSum([a \in 1 .. Len(p[i]) |-> RMul(co[i][a], RLog(p[i][a]))]))])
      gm == RTrim(Mean(g))
      m == RTrim(Mean([i \in 1 .. n |-> Iw(p[i], batch[i])]))
      var == IF n = 1 THEN "0" ELSE RDiv(RSum([i \in 1 .. n |-> RSq(RSub(g[i], gm))]), n - 1)
      dg == RSeq([i \in 1 .. n |-> RTrim(RAdd(RDiv("-1", n), IF n = 1 THEN "0" ELSE RDiv(RMul(RMul(2, c.vreg), RSub(g[i], gm)), n - 1)))])
      \* with respect to the scores of round i: d log pi_a / d z_b = [a = b] - pi_b
      dz == RSeq([i \in 1 .. n |-> LET tot == RSum(co[i]) IN RSeq([b \in 1 .. Len(p[i]) |-> RTrim(RAdd(
               RMul(dg[i], RSub(co[i][b], RMul(tot, p[i][b]))),
               RMul(RDiv(RMul(c.preg, Iw(p[i], batch[i])), RMul(n, m)), RSub(IF b = batch[i].a + 1 THEN "1" ELSE "0", p[i][b]))))])])
  IN [loss |-> RTrim(RAdd(RAdd(RNeg(gm), RMul(c.preg, RLog(m))), RMul(c.vreg, var))),
      grad |-> SumGrads(RSeq([i \in 1 .. n |-> Back(theta, c.dims, c.f, t[i], dz[i])]), Size(c.dims)),
      \* single precision loses probabilities that small
      amb |-> \E i \in 1 .. n : Kink(c.f, t[i]) \/ \E a \in 1 .. Len(p[i]) : RLt(p[i][a], "1/1000000000000")]
ContinuousEval(c, theta, batch) ==
  LET n == Len(batch)
      t == RSeq([i \in 1 .. n |-> Trace(theta, c.dims, c.f, batch[i].x)])
      u == RSeq([i \in 1 .. n |-> t[i][Len(t[i])].z[1]])
      inside(v) == c.lo = "none" \/ (RLe(c.lo, v) /\ RLe(v, c.hi))
      d == RSeq([i \in 1 .. n |-> IF inside(u[i]) THEN RTrim(RNeg(RDiv(CValueD(c, batch[i], u[i]), n))) ELSE "0"])
  IN [loss |-> RTrim(RNeg(Mean([i \in 1 .. n |-> CValue(c, batch[i], Clamp(c, u[i]))]))),
      grad |-> SumGrads(RSeq([i \in 1 .. n |-> Back(theta, c.dims, c.f, t[i], <<d[i]>>)]), Size(c.dims)),
      amb |-> \/ \E i \in 1 .. n : Kink(c.f, t[i])
              \/ c.lo # "none" /\ \E i \in 1 .. n : RLt(RAbs(RSub(u[i], c.lo)), "1/100000") \/ RLt(RAbs(RSub(u[i], c.hi)), "1/100000")
              \/ c.obj # "c-ipw" /\ \E i \in 1 .. n : Kink(c.qf, Trace(c.qtheta, c.qdims, c.qf, Append(batch[i].x, Clamp(c, u[i]))))]
\* reward regression: squared error at the logged action
MseEval(c, theta, batch) ==
  LET n == Len(batch)
      in(i) == IF c.obj = "mse" THEN batch[i].x ELSE Append(batch[i].x, batch[i].a)
      at(i) == IF c.obj = "mse" THEN batch[i].a + 1 ELSE 1
      t == RSeq([i \in 1 .. n |-> Trace(theta, c.dims, c.f, in(i))])
      e == RSeq([i \in 1 .. n |-> RSub(t[i][Len(t[i])].z[at(i)], batch[i].r)])
      d == RSeq([i \in 1 .. n |-> RSeq([o \in 1 .. c.dims[Len(c.dims)] |-> IF o = at(i) THEN RTrim(RDiv(RMul(2, e[i]), n)) ELSE "0"])])
  IN [loss |-> RTrim(Mean([i \in 1 .. n |-> RSq(e[i])])),
      grad |-> SumGrads(RSeq([i \in 1 .. n |-> Back(theta, c.dims, c.f, t[i], d[i])]), Size(c.dims)),
      amb |-> \E i \in 1 .. n : Kink(c.f, t[i])]
Eval(c, theta, batch) == IF c.obj \in Discrete THEN DiscreteEval(c, theta, batch)
                         ELSE IF c.obj \in {"mse", "c-mse"} THEN MseEval(c, theta, batch) ELSE ContinuousEval(c, theta, batch)
\* ---------------------------------------------------------------- optimisers
\* o: [kind, lr, decay, momentum, nesterov, b1, b2, eps]; state s: [t, m, v]
Zeros(n) == [k \in 1 .. n |-> "0"]
Fresh(n) == [t |-> 0, m |-> Zeros(n), v |-> Zeros(n)]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN "1" ELSE RTrim(RMul(a, Pow(a, n - 1)))
OptStep(o, s, theta, grad) ==
  LET n == Len(theta)
      g == RSeq([k \in 1 .. n |-> RTrim(RAdd(grad[k], RMul(o.decay, theta[k])))])
      t == s.t + 1
  IN CASE o.kind = "sgd" ->
            LET b == RSeq([k \in 1 .. n |-> IF REq(o.momentum, "0") \/ t = 1 THEN g[k] ELSE RTrim(RAdd(RMul(o.momentum, s.m[k]), g[k]))])
                d == RSeq([k \in 1 .. n |-> IF REq(o.momentum, "0") THEN g[k] ELSE IF o.nesterov THEN RAdd(g[k], RMul(o.momentum, b[k])) ELSE b[k]])
            IN [theta |-> RSeq([k \in 1 .. n |-> RTrim(RSub(theta[k], RMul(o.lr, d[k])))]), s |-> [t |-> t, m |-> b, v |-> s.v]]
       [] o.kind = "adagrad" ->
            LET v == RSeq([k \in 1 .. n |-> RTrim(RAdd(s.v[k], RSq(g[k])))])
            IN [theta |-> RSeq([k \in 1 .. n |-> RTrim(RSub(theta[k], RDiv(RMul(o.lr, g[k]), RAdd(RSqrt(v[k]), o.eps))))]), s |-> [t |-> t, m |-> s.m, v |-> v]]
       [] o.kind = "adam" ->
            LET m == RSeq([k \in 1 .. n |-> RTrim(RAdd(RMul(o.b1, s.m[k]), RMul(RSub("1", o.b1), g[k])))])
                v == RSeq([k \in 1 .. n |-> RTrim(RAdd(RMul(o.b2, s.v[k]), RMul(RSub("1", o.b2), RSq(g[k]))))])
                c1 == RSub("1", Pow(o.b1, t))
                c2 == RSqrt(RSub("1", Pow(o.b2, t)))
            IN [theta |-> RSeq([k \in 1 .. n |-> RTrim(RSub(theta[k], RDiv(RMul(RDiv(o.lr, c1), m[k]), RAdd(RDiv(RSqrt(v[k]), c2), o.eps))))]), s |-> [t |-> t, m |-> m, v |-> v]]
\* -------------------------------------------------------------- when to stop
\* watch: [prev ("none" before the first loss), bad]; not improving by at least tol counts
Seen(w, loss, tol) == [prev |-> loss, bad |-> IF w.prev = "none" THEN 0 ELSE IF RLt(RSub(w.prev, loss), tol) THEN w.bad + 1 ELSE 0]
Close(w, loss, tol) == w.prev # "none" /\ RLt(RAbs(RSub(RSub(w.prev, loss), tol)), RMul("1/20000", RMax("1", RAbs(loss))))
Watch0 == [prev |-> "none", bad |-> 0]
\* state of a training run: [theta, s (optimiser), tr, va (watches), stop, amb]
Start(theta) == [theta |-> theta, s |-> Fresh(Len(theta)), tr |-> Watch0, va |-> Watch0, stop |-> FALSE, amb |-> FALSE, steps |-> 0]
\* single precision cannot follow a diverging run
Diverging(theta) == \E k \in 1 .. Len(theta) : RLt("50", RAbs(theta[k]))
TrainOn(c, o, r, batch) ==
  LET e == Eval(c, r.theta, batch)
      st == OptStep(o, r.s, r.theta, e.grad)
      w == Seen(r.tr, e.loss, o.tol)
  IN IF r.amb THEN r ELSE [r EXCEPT !.theta = st.theta, !.s = st.s, !.tr = w, !.stop = w.bad >= o.patience, !.amb = @ \/ e.amb \/ Close(r.tr, e.loss, o.tol) \/ Diverging(st.theta), !.steps = @ + 1]
ValidateOn(c, o, r, batch) ==
  LET e == Eval(c, r.theta, batch)
      w == Seen(r.va, e.loss, o.tol)
  IN [r EXCEPT !.va = w, !.stop = w.bad >= o.patience, !.amb = @ \/ e.amb \/ Close(r.va, e.loss, o.tol)]
RECURSIVE OverBatches(_, _, _, _, _)
OverBatches(c, o, r, bs, train) == IF r.stop \/ bs = <<>> THEN r
  ELSE OverBatches(c, o, IF train THEN TrainOn(c, o, r, bs[1]) ELSE ValidateOn(c, o, r, bs[1]), Tail(bs), train)
\* epochs: a sequence of [tr: training batches, va: validation batches]
RECURSIVE Fit(_, _, _, _)
Fit(c, o, r, epochs) == IF r.stop \/ epochs = <<>> THEN r
  ELSE Fit(c, o, OverBatches(c, o, OverBatches(c, o, r, epochs[1].tr, TRUE), epochs[1].va, FALSE), Tail(epochs))
\* rounds in their order, cut into batches of size b
RECURSIVE Cut(_, _)
Cut(rows, b) == IF rows = <<>> THEN <<>> ELSE IF Len(rows) <= b THEN <<rows>> ELSE <<SubSeq(rows, 1, b)>> \o Cut(SubSeq(rows, b + 1, Len(rows)), b)
=============================================================================
