----------------------------- MODULE ContextFree -----------------------------
(***************************************************************************)
(* Context-free online policies with batched learning.                     *)
(* A history is the sequence of updates [a, r] since (re)initialisation;   *)
(* decisions rest on its longest prefix that is a whole number of batches. *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt

Committed(h, b) == SubSeq(h, 1, (Len(h) \div b) * b)
Count(c, a) == Cardinality({i \in 1 .. Len(c) : c[i].a = a})
Reward(c, a) == RSum([i \in 1 .. Len(c) |-> IF c[i].a = a THEN c[i].r ELSE "0"])
MeanReward(c, a) == RDiv(Reward(c, a), Count(c, a))

Actions(K) == 0 .. K - 1
ValidList(s, K, L) == /\ Len(s) = L
                      /\ \A i \in 1 .. L : s[i] \in Actions(K)
                      /\ \A i, j \in 1 .. L : i # j => s[i] # s[j]
(* a list ranked by a score: non-increasing, nothing better left out *)
Ranked(s, K, score(_), tol) ==
  /\ \A i \in 1 .. Len(s) - 1 : RLe(RSub(score(s[i + 1]), tol), score(s[i]))
  /\ \A a \in Actions(K) : (\A i \in 1 .. Len(s) : s[i] # a) =>
        \A i \in 1 .. Len(s) : RLe(RSub(score(a), tol), score(s[i]))
AllTried(c, K) == \A a \in Actions(K) : Count(c, a) > 0

(* probability that a Beta(a2,b2) draw exceeds a Beta(a1,b1) draw (integers) *)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN "1" ELSE RMul(n, Fact(n - 1))
BetaFn(a, b) == RDiv(RMul(Fact(a - 1), Fact(b - 1)), Fact(a + b - 1))
WinProb(a1, b1, a2, b2) ==
  RSum([j \in 1 .. a2 |-> LET i == j - 1 IN
        RDiv(BetaFn(a1 + i, b1 + b2), RMul(RMul(b2 + i, BetaFn(1 + i, b2)), BetaFn(a1, b1)))])
(* observed frequency k/n is compatible with probability p (6.5 standard deviations plus one) *)
Compatible(k, n, p) ==
  RLe(RSq(RMax("0", RSub(RAbs(RSub(k, RMul(n, p))), 1))), RMul("169/4", RMul(n, RMul(p, RSub(1, p)))))
=============================================================================
