------------------------------- MODULE MC_Num -------------------------------
(* Sanity of the Java realisation of Num: agreement with TLC integers and    *)
(* the ordered-field laws on a small grid of rationals.                      *)
EXTENDS Num, Integers, Sequences
VARIABLE x
Z == -4 .. 4
Q == {RDiv(n, d) : n \in Z, d \in 1 .. 4}
Init == x \in Q \X Q \X {RDiv(n, d) : n \in -2 .. 2, d \in 1 .. 3}
Next == UNCHANGED x
a == x[1]
b == x[2]
c == x[3]
IntegerAgreement == \A m \in Z, n \in Z :
   /\ REq(RAdd(m, n), m + n) /\ REq(RMul(m, n), m * n) /\ REq(RSub(m, n), m - n)
   /\ (RLe(m, n) <=> m <= n) /\ (RLt(m, n) <=> m < n)
   /\ (n > 0 => RFloor(RDiv(m, n)) = m \div n)
FieldLaws ==
   /\ REq(RAdd(a, b), RAdd(b, a)) /\ REq(RMul(a, b), RMul(b, a))
   /\ REq(RAdd(RAdd(a, b), c), RAdd(a, RAdd(b, c)))
   /\ REq(RMul(RMul(a, b), c), RMul(a, RMul(b, c)))
   /\ REq(RMul(a, RAdd(b, c)), RAdd(RMul(a, b), RMul(a, c)))
   /\ REq(RAdd(a, RNeg(a)), 0)
   /\ (~REq(a, 0) => REq(RMul(a, RDiv(1, a)), 1))
   /\ (RLe(a, b) /\ RLe(0, c) => RLe(RMul(a, c), RMul(b, c)))
   /\ (RLe(a, b) \/ RLt(b, a)) /\ ~(RLe(a, b) /\ RLt(b, a))
   /\ REq(RSum(<<a, b, c>>), RAdd(a, RAdd(b, c)))
   /\ REq(RDot(<<a, b>>, <<b, c>>), RAdd(RMul(a, b), RMul(b, c)))
   /\ (RLe(0, a) => RNear(RSq(RSqrt(a)), a, "1/1000000000000"))
   /\ RNear(RMul(RExp(a), RExp(b)), RExp(RAdd(a, b)), "1/1000000000000")
   /\ RNear(RAdd(RPhi(a), RPhi(RNeg(a))), 1, "1/1000000000000") /\ (RLt(a, b) => RLt(RPhi(a), RPhi(b))) /\ RPhi(0) = "1/2"
Specials ==
   /\ RDiv(1, 0) = "inf" /\ RDiv(-1, 0) = "-inf" /\ RDiv(0, 0) = "nan"
   /\ RMin("inf", a) = a /\ ~RLe("nan", a) /\ ~RLe(a, "nan") /\ ~RNear("nan", "nan", 1)
   /\ RNear("inf", "inf", 0) /\ ~RNear("inf", a, 1) /\ RFin(a) /\ ~RFin("inf")
=============================================================================
