------------------------------ MODULE MC_Grad ------------------------------
(* The gradient the training step uses is the gradient of the stated          *)
(* objective: compared with central differences of the objective, on small    *)
(* networks, batches and every objective.                                     *)
EXTENDS Train, TLC
CONSTANTS Objs, Acts, Shapes, Lambdas, Seeds, Rewards
VARIABLES c, theta, batch
vars == <<c, theta, batch>>
\* arbitrary but fixed small rationals
Pick(seed, k) == RDiv(((seed * 37 + k * 53 + (k * k * seed)) % 41) - 20, 16)
K == 3
D == 2
Continuous == {"c-ipw", "c-dr", "c-dpg"}
Hidden(h) == IF h = 0 THEN <<>> ELSE <<h>>
Dims(obj, h) == CASE obj \in Discrete \cup {"mse"} -> <<D>> \o Hidden(h) \o <<K>> [] obj = "c-mse" -> <<D + 1>> \o Hidden(h) \o <<1>> [] OTHER -> <<D>> \o Hidden(h) \o <<1>>
QDims(obj) == IF obj \in Continuous THEN <<D + 1, 2, 1>> ELSE <<D, 2, K>>
Round(obj, s, r) == [x |-> <<Pick(s, 101), Pick(s, 102)>>, a |-> IF obj \in Continuous \cup {"c-mse"} THEN Pick(s, 103) ELSE s % K, r |-> r, ps |-> RDiv(1 + (s % 4), 4)]
Init == \E obj \in Objs, f \in Acts, h \in Shapes, lam \in Lambdas :
  /\ c = [obj |-> obj, f |-> f, lambda |-> lam, preg |-> "0", vreg |-> "0", bw |-> "3/4", lo |-> "none", hi |-> "none", dims |-> Dims(obj, h),
          qdims |-> QDims(obj), qf |-> "tanh", qtheta |-> RSeq([k \in 1 .. Size(QDims(obj)) |-> Pick(7, k)])]
  /\ theta = <<>> /\ batch = <<>>
Next == /\ batch = <<>>
        /\ \E s \in Seeds, r1 \in Rewards, r2 \in Rewards :
             /\ theta' = RSeq([k \in 1 .. Size(c.dims) |-> Pick(s, k)])
             /\ batch' = <<Round(c.obj, s, r1), Round(c.obj, s + 1, r2)>>
        /\ UNCHANGED c
\* the objective at parameters th (as something to minimise)
Loss(th) ==
  IF c.obj \in Discrete THEN RNeg(Mean([i \in 1 .. Len(batch) |-> Value(c, Probs(Output(th, c.dims, c.f, batch[i].x)), batch[i])]))
  ELSE IF c.obj \in Continuous THEN RNeg(Mean([i \in 1 .. Len(batch) |-> CValue(c, batch[i], Output(th, c.dims, c.f, batch[i].x)[1])]))
  ELSE Eval(c, th, batch).loss
Eps == "1/4096"
Bump(k, s) == [theta EXCEPT ![k] = RAdd(@, s)]
Diff(k) == RDiv(RSub(Loss(Bump(k, Eps)), Loss(Bump(k, RNeg(Eps)))), RMul(2, Eps))
NearKink == batch = <<>> \/ \E i \in 1 .. Len(batch) : c.f \in {"relu", "elu"} /\ LET t == Trace(theta, c.dims, c.f, IF c.obj = "c-mse" THEN Append(batch[i].x, batch[i].a) ELSE batch[i].x) IN
               \E l \in 1 .. Len(t) - 1 : \E j \in 1 .. Len(t[l].z) : RLt(RAbs(t[l].z[j]), "1/100")
GradientOfObjective == ~NearKink => LET g == Eval(c, theta, batch).grad IN \A k \in 1 .. Len(theta) : RNear(g[k], Diff(k), "1/100000")
\* the regularisers: compared with differences of the loss as computed, the coefficients of log pi held fixed
RegLoss(th, pr, vr) ==
  LET co == RSeq([i \in 1 .. Len(batch) |-> Coef(c, Probs(Output(theta, c.dims, c.f, batch[i].x)), batch[i])])
      p == RSeq([i \in 1 .. Len(batch) |-> Probs(Output(th, c.dims, c.f, batch[i].x))])
      g == RSeq([i \in 1 .. Len(batch) |-> RSum([a \in 1 .. K |-> RMul(co[i][a], RLog(p[i][a]))])])
      gm == Mean(g)
  IN RAdd(RAdd(RNeg(gm), RMul(pr, RLog(Mean([i \in 1 .. Len(batch) |-> Iw(p[i], batch[i])])))), RMul(vr, RDiv(RSum([i \in 1 .. Len(batch) |-> RSq(RSub(g[i], gm))]), Len(batch) - 1)))
RegDiff(k) == RDiv(RSub(RegLoss(Bump(k, Eps), "3/4", "1/2"), RegLoss(Bump(k, RNeg(Eps)), "3/4", "1/2")), RMul(2, Eps))
RegularisedGradient == (~NearKink /\ c.obj \in Discrete) => LET e == Eval([c EXCEPT !.preg = "3/4", !.vreg = "1/2"], theta, batch) IN
   RNear(e.loss, RegLoss(theta, "3/4", "1/2"), "1/1000000000") /\ \A k \in 1 .. Len(theta) : RNear(e.grad[k], RegDiff(k), "1/10000")
\* a small step against the gradient does not worsen the objective
Descends == ~NearKink => LET e == Eval(c, theta, batch)
                             o == [kind |-> "sgd", lr |-> "1/10000", decay |-> "0", momentum |-> "0", nesterov |-> FALSE] IN
   RLe(Loss(OptStep(o, Fresh(Len(theta)), theta, e.grad).theta), RAdd(Loss(theta), "1/1000000000000"))
=============================================================================
