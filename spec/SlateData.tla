------------------------------ MODULE SlateData ------------------------------
(***************************************************************************)
(* Synthetic slates.  A round has positive weights w[1..K] (exponentials   *)
(* of the policy logits); a slate is a sequence of L actions (0-based),    *)
(* drawn slot by slot: without replacement, or independently when the      *)
(* policy is factorizable (fac).                                           *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets
Acts(K) == 0 .. K - 1
Used(s, l, fac) == IF fac THEN {} ELSE {s[j] : j \in 1 .. l - 1}
(* probability of action a at a slot when `used` is no longer available *)
StepProb(w, used, a) == IF a \in used THEN "0"
  ELSE RTrim(RDiv(w[a + 1], RSum([b \in 1 .. Len(w) |-> IF (b - 1) \in used THEN "0" ELSE w[b]])))
RECURSIVE Cascade(_, _, _, _)
(* probability of the first l actions of s *)
Cascade(w, s, l, fac) == IF l = 0 THEN "1"
  ELSE RTrim(RMul(Cascade(w, s, l - 1, fac), StepProb(w, Used(s, l, fac), s[l])))
SlateProb(w, s, fac) == Cascade(w, s, Len(s), fac)
Seqs(K, l, fac) == {s \in [1 .. l -> Acts(K)] : fac \/ \A i, j \in 1 .. l : i # j => s[i] # s[j]}
RECURSIVE Marg(_, _, _, _, _)
(* probability that, after `used` went to earlier slots, action a sits k slots ahead (k >= 1) *)
Marg(w, used, k, a, fac) == IF a \in used /\ ~fac THEN "0"
  ELSE IF fac \/ k = 1 THEN StepProb(w, used, a)
  ELSE RSum([b \in 1 .. Len(w) |-> IF (b - 1) \in used \/ b - 1 = a THEN "0"
            ELSE RTrim(RMul(StepProb(w, used, b - 1), Marg(w, used \cup {b - 1}, k - 1, a, fac)))])
ItemPos(w, l, a, fac) == Marg(w, {}, l, a, fac)
(* ------------------------------------------------------------- rewards *)
Decay(kind, d) == IF kind = "exponential" THEN RExp(RNeg(d)) ELSE RDiv(1, d + 1)
Abs(x) == IF x < 0 THEN -x ELSE x
IsCascade(st) == st \in {"cascade_additive", "cascade_decay"}
IsAdditive(st) == st \in {"standard_additive", "cascade_additive"}
Interacts(st, l, m) == st # "independent" /\ (IF IsCascade(st) THEN m < l ELSE m # l)
(* interaction seen by slot l: M is the action-by-action matrix of the additive structures *)
Inter(st, decay, M, base, s, l) == RSum([m \in 1 .. Len(s) |->
   IF ~Interacts(st, l, m) THEN "0"
   ELSE IF IsAdditive(st) THEN M[s[l] + 1][s[m] + 1]
   ELSE RNeg(RMul(base[s[m] + 1], Decay(decay, Abs(l - m))))])
Logit(p) == RLog(RDiv(p, RSub(1, p)))
Sigmoid(x) == RTrim(RDiv(1, RAdd(1, RExp(RNeg(x)))))
TruncMean(m) == LET phi == RDiv(RExp(RDiv(RNeg(RSq(m)), 2)), RSqrt(RMul(2, RPi))) IN RTrim(RAdd(m, RDiv(phi, RPhi(m))))
(* expectation parameter of slot l: click probability, or location of the reward *)
SlotParam(o, base, s, l) == IF o.binary
  THEN Sigmoid(RAdd(Logit(base[s[l] + 1]), Inter(o.st, o.decay, o.M, [a \in 1 .. Len(base) |-> Logit(base[a])], s, l)))
  ELSE RMax(0, RAdd(base[s[l] + 1], Inter(o.st, o.decay, o.M, base, s, l)))
Exam(o, l) == IF o.click = "pbm" THEN RPowR(RDiv(1, l), o.eta) ELSE "1"
Att(o, l) == IF o.click = "cascade" THEN RPowR(RDiv(1, l), o.eta) ELSE "1"
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN "1" ELSE RMul(x, PowI(x, k - 1))
RECURSIVE Moment(_, _, _, _)
(* k-th moment of the examination discount at slot l; a click at slot l-1    *)
(* multiplies the discount by att[l]                                         *)
Moment(qs, att, l, k) == IF l = 1 \/ k = 0 THEN "1"
  ELSE RTrim(RSub(Moment(qs, att, l - 1, k), RMul(RMul(RSub(1, PowI(att[l], k)), qs[l - 1]), Moment(qs, att, l - 1, k + 1))))
ExpectedClicks(qs, att) == RSum([l \in 1 .. Len(qs) |-> RMul(qs[l], Moment(qs, att, l, 1))])
=============================================================================
