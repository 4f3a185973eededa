-------------------------------- MODULE LinAlg --------------------------------
(* Exact linear algebra on small rational matrices (sequences of rows).       *)
EXTENDS Num, Integers, Sequences
Ident(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN "1" ELSE "0"]]
ZeroVec(n) == [i \in 1 .. n |-> "0"]
VAdd(u, v) == [i \in 1 .. Len(u) |-> RAdd(u[i], v[i])]
VScale(c, v) == [i \in 1 .. Len(v) |-> RMul(c, v[i])]
MAdd(A, B) == [i \in 1 .. Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1 .. Len(A) |-> [j \in 1 .. Len(A[i]) |-> RSub(A[i][j], B[i][j])]]
MScale(c, A) == [i \in 1 .. Len(A) |-> VScale(c, A[i])]
Outer(u, v) == [i \in 1 .. Len(u) |-> [j \in 1 .. Len(v) |-> RMul(u[i], v[j])]]
MVec(A, x) == [i \in 1 .. Len(A) |-> RDot(A[i], x)]
Col(A, j) == [i \in 1 .. Len(A) |-> A[i][j]]
MMul(A, B) == [i \in 1 .. Len(A) |-> [j \in 1 .. Len(B[1]) |-> RDot(A[i], Col(B, j))]]
Drop(s, k) == [i \in 1 .. Len(s) - 1 |-> IF i < k THEN s[i] ELSE s[i + 1]]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN "1" ELSE IF Len(A) = 1 THEN A[1][1]
  ELSE RSum([j \in 1 .. Len(A) |-> RMul(RMul(IF j % 2 = 1 THEN 1 ELSE -1, A[1][j]),
        Det([i \in 1 .. Len(A) - 1 |-> Drop(A[i + 1], j)]))])
(* Cramer's rule: the solution of A z = y *)
Solve(A, y) == LET d == Det(A) IN
  [k \in 1 .. Len(A) |-> RDiv(Det([i \in 1 .. Len(A) |-> [A[i] EXCEPT ![k] = y[i]]]), d)]
=============================================================================
