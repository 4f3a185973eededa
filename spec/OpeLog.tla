------------------------------- MODULE OpeLog -------------------------------
(***************************************************************************)
(* Logged bandit data and the single-action off-policy estimators.         *)
(*                                                                         *)
(* A log is a sequence of rounds; a round is a record                      *)
(*   a   logged action (0-based)        p   position (0-based)             *)
(*   r   reward                         ps  logging propensity             *)
(*   pi  pi[a+1][p+1] evaluation policy q   q[a+1][p+1] reward model       *)
(*   ew  externally estimated weight                                       *)
(* The state machine of this module grows a log round by round (the system *)
(* only ever appends); every estimator is a state function of the log.     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

At(m, rd) == m[rd.a + 1][rd.p + 1]
PiAll(rd) == [a \in 1 .. Len(rd.pi) |-> rd.pi[a][rd.p + 1]]
QAll(rd)  == [a \in 1 .. Len(rd.q) |-> rd.q[a][rd.p + 1]]

W(rd) == RDiv(At(rd.pi, rd), rd.ps)                 \* importance weight
Dm(rd) == RDot(PiAll(rd), QAll(rd))                 \* direct-method baseline
Resid(rd) == RSub(rd.r, At(rd.q, rd))

(* weight transforms; a zero weight is always mapped to zero *)
Clip(w, lam) == RMin(w, lam)
Switch(w, lam) == IF RLe(w, lam) THEN w ELSE "0"
Shrink(w, lam) == IF lam = "inf" THEN w
                  ELSE IF REq(w, 0) THEN "0"
                  ELSE RDiv(RMul(lam, w), RAdd(RSq(w), lam))
SubG(w, lam) == IF REq(w, 0) THEN "0"
                ELSE RDiv(w, RAdd(RSub(1, lam), RMul(lam, w)))

Mean(s) == RDiv(RSum(s), Len(s))
Map(f(_), log) == [i \in 1 .. Len(log) |-> f(log[i])]

Match(rd) == IF REq(At(rd.pi, rd), 1) THEN 1 ELSE 0
MeanW(log) == Mean(Map(W, log))
MeanE(log, lam) == Mean([i \in 1 .. Len(log) |-> Clip(log[i].ew, lam)])

(* per-round contributions; Value is their mean *)
Contrib(est, lam, log) ==
  LET n == Len(log) IN
  CASE est = "rm" ->
         LET m == RSum(Map(Match, log)) IN
         [i \in 1 .. n |-> IF m = "0" THEN "0" ELSE RDiv(RMul(RMul(Match(log[i]), log[i].r), n), m)]
    [] est = "ipw" -> [i \in 1 .. n |-> RMul(log[i].r, Clip(W(log[i]), lam))]
    [] est = "snipw" -> LET mw == MeanW(log) IN [i \in 1 .. n |-> RDiv(RMul(log[i].r, W(log[i])), mw)]
    [] est = "dm" -> [i \in 1 .. n |-> Dm(log[i])]
    [] est = "dr" -> [i \in 1 .. n |-> RAdd(Dm(log[i]), RMul(Clip(W(log[i]), lam), Resid(log[i])))]
    [] est = "sndr" -> LET mw == MeanW(log) IN
         [i \in 1 .. n |-> RAdd(Dm(log[i]), RDiv(RMul(W(log[i]), Resid(log[i])), mw))]
    [] est = "switch-dr" -> [i \in 1 .. n |-> RAdd(Dm(log[i]), RMul(Switch(W(log[i]), lam), Resid(log[i])))]
    [] est = "dr-os" -> [i \in 1 .. n |-> RAdd(Dm(log[i]), RMul(Shrink(W(log[i]), lam), Resid(log[i])))]
    [] est = "sg-ipw" -> [i \in 1 .. n |-> RMul(SubG(W(log[i]), lam), log[i].r)]
    [] est = "sg-dr" -> [i \in 1 .. n |-> RAdd(Dm(log[i]), RMul(SubG(W(log[i]), lam), Resid(log[i])))]
    [] est = "b-ipw" -> LET mw == MeanE(log, lam) IN
         [i \in 1 .. n |-> RDiv(RMul(log[i].r, Clip(log[i].ew, lam)), mw)]

(* self-normalised estimators are undefined when every weight is zero *)
Defined(est, lam, log) ==
  CASE est \in {"snipw", "sndr"} -> ~REq(MeanW(log), 0)
    [] est = "b-ipw" -> ~REq(MeanE(log, lam), 0)
    [] OTHER -> TRUE

Value(est, lam, log) == Mean(Contrib(est, lam, log))
AbsMean(s) == Mean([i \in 1 .. Len(s) |-> RAbs(s[i])])

Estimators == {"rm", "ipw", "snipw", "dm", "dr", "sndr", "switch-dr", "dr-os", "sg-ipw", "sg-dr", "b-ipw"}
=============================================================================
