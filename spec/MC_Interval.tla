---------------------------- MODULE MC_Interval ----------------------------
(* All contribution vectors over a small grid, all bootstrap outcomes of at   *)
(* most MaxB draws: what every interval satisfies, and that the judge of the  *)
(* implementation accepts all of them.                                        *)
EXTENDS Interval, TLC
CONSTANTS MaxN, MaxB, Grid
VARIABLES x, boots
vars == <<x, boots>>
Init == x \in UNION {[1 .. n -> {RDiv(g - 1, 2) : g \in Grid}] : n \in 1 .. MaxN} /\ boots = <<>>
Next == Len(boots) < MaxB /\ \E f \in Draws(Len(x)) : boots' = Append(boots, DrawMean(x, f)) /\ UNCHANGED x
NE == boots # <<>>
Alphas == {"1/20", "1/2", "4/5"}
I(a) == IntervalOf(boots, a)
Ordered == NE => \A a \in Alphas : RLe(I(a).lo, I(a).hi)
InHull == NE => \A a \in Alphas : RLe(IMin(x), I(a).lo) /\ RLe(I(a).hi, IMax(x)) /\ RLe(IMin(x), I(a).mean) /\ RLe(I(a).mean, IMax(x))
Nested == NE => \A a, b \in Alphas : RLe(a, b) => RLe(I(a).lo, I(b).lo) /\ RLe(I(b).hi, I(a).hi)
Degenerate == NE /\ IMin(x) = IMax(x) => \A a \in Alphas : I(a) = [mean |-> x[1], lo |-> x[1], hi |-> x[1]]
JudgeAccepts == NE /\ Len(boots) <= 2 => \A a \in Alphas : IntervalVerdict(x, a, Len(boots), I(a), "1/1000000000") = "ok"
\* a scaled, shifted or transposed interval is rejected when it is distinguishable
JudgeRejects == NE /\ Len(boots) = 2 /\ Len(x) > 1 /\ IMin(x) # IMax(x) => \A a \in {"1/20"} :
   /\ IntervalVerdict(x, a, 2, [I(a) EXCEPT !.lo = RSub(IMin(x), 1)], "1/1000000000") # "ok"
   /\ (I(a).lo # I(a).hi => IntervalVerdict(x, a, 2, [I(a) EXCEPT !.lo = I(a).hi, !.hi = I(a).lo], "1/1000000000") # "ok")
Distribution == boots = <<>> => LET at == Atoms(x) IN
   /\ REq(RSum([k \in 1 .. Len(at) |-> at[k].m]), 1)
   /\ REq(RSum([k \in 1 .. Len(at) |-> RMul(at[k].m, at[k].v)]), IMean(x))       \* the bootstrap is centred
BinomialIsEnumeration == boots = <<>> /\ Cardinality(Values(x)) = 2 =>
   LET e == Enumerated(x)
       t == TwoValued(x)
   IN \A k \in 1 .. Len(t) : REq(PLe(e, t[k].v), PLe(t, t[k].v)) /\ REq(PLt(e, t[k].v), PLt(t, t[k].v))
BoundsBelowMean == boots = <<>> /\ Len(x) > 1 /\ RLe(0, IMin(x)) =>
   LET M == IMax(x) IN
   /\ \A d \in {"1/20", "1/4"} : RLe(HoeffdingLB(x, M, d), IMean(x)) /\ RLe(BernsteinLB(x, M, d), IMean(x)) /\ RLe(StudentLB(x, d), IMean(x))
   /\ RLe(HoeffdingLB(x, M, "1/20"), HoeffdingLB(x, M, "1/4")) /\ RLe(BernsteinLB(x, M, "1/20"), BernsteinLB(x, M, "1/4")) /\ RLe(StudentLB(x, "1/20"), StudentLB(x, "1/4"))
   /\ RLe(HoeffdingLB(x, M, "1/20"), HoeffdingLB(x \o x, M, "1/20")) /\ RLe(BernsteinLB(x, M, "1/20"), BernsteinLB(x \o x, M, "1/20"))
=============================================================================
