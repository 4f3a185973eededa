---------------------------- MODULE MC_Nuisance ----------------------------
(* Cross-fitting as the code performs it: for every fold in turn, fit one     *)
(* model per position on the other folds, then predict the fold.  Positions,  *)
(* actions and the assignment to folds are arbitrary.                         *)
EXTENDS Nuisance, TLC, Json, IOUtils
CONSTANTS MaxN, L, MaxFolds, Fresh, NActions
VARIABLES log, nf, fold, cur, phase, knows, answered
vars == <<log, nf, fold, cur, phase, knows, answered>>
N == Len(log)
Init == /\ nf \in 1 .. MaxFolds
        /\ log \in UNION {[1 .. n -> [p : 0 .. L - 1, a : 0 .. NActions - 1]] : n \in 1 .. MaxN}
        /\ N >= nf
        /\ fold \in [1 .. N -> 1 .. nf]
        /\ \A i, j \in 1 .. nf : Cardinality({r \in 1 .. N : fold[r] = i}) <= Cardinality({r \in 1 .. N : fold[r] = j}) + 1
        /\ cur = 1 /\ phase = "fit"
        /\ knows = [p \in 0 .. L - 1 |-> {}]
        /\ answered = [i \in 1 .. N |-> <<>>]
Train(f) == IF nf = 1 THEN 1 .. N ELSE {i \in 1 .. N : fold[i] # f}
Fit == /\ cur <= nf /\ phase = "fit"
       /\ knows' = [p \in 0 .. L - 1 |-> {i \in Train(cur) : log[i].p = p} \cup (IF Fresh THEN {} ELSE knows[p])]
       /\ phase' = "predict" /\ UNCHANGED <<log, nf, fold, cur, answered>>
Predict == /\ phase = "predict"
           /\ answered' = [i \in 1 .. N |-> IF nf = 1 \/ fold[i] = cur THEN Append(answered[i], knows) ELSE answered[i]]
           /\ phase' = "fit" /\ cur' = cur + 1 /\ UNCHANGED <<log, nf, fold, knows>>
Next == Fit \/ Predict
Done == cur = nf + 1
NoLeak == nf > 1 => \A i \in 1 .. N : \A k \in 1 .. Len(answered[i]) : \A p \in 0 .. L - 1 : i \notin answered[i][k][p]
SamePosition == \A i \in 1 .. N : \A k \in 1 .. Len(answered[i]) : \A p \in 0 .. L - 1 : \A j \in answered[i][k][p] : log[j].p = p
ExactlyOnce == Done => \A i \in 1 .. N : Len(answered[i]) = 1
\* the held-out sets can be reconstructed from what the answering models know
Reconstructed == (Done /\ nf > 1 /\ N >= nf) =>
  Partition(N, [i \in 1 .. N |-> (1 .. N) \ UNION {answered[i][1][p] : p \in 0 .. L - 1}], nf)
OneFoldKnowsAll == (Done /\ nf = 1) => \A i \in 1 .. N : UNION {answered[i][1][p] : p \in 0 .. L - 1} = 1 .. N
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
\* one behaviour per log and number of folds: those with folds in order
Emit == (Done /\ N >= 2 /\ \A i, j \in 1 .. N : i < j => fold[i] <= fold[j]) => Serialize(ToJson([log |-> log, nf |-> nf]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
