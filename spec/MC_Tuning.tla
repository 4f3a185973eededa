------------------------------ MODULE MC_Tuning ------------------------------
(* Every log of 2..MaxLen rounds over a small domain: relations of the two    *)
(* tuning criteria; the logs are exported and replayed on the implementation. *)
EXTENDS Tuning, TLC, Json, IOUtils
CONSTANTS MaxLen, Big
VARIABLE log
Rounds == {[a |-> a, p |-> 0, r |-> r, ps |-> ps, pi |-> <<<<pi>>, <<RSub(1, pi)>>>>, q |-> <<<<"1">>, <<"1/2">>>>] :
   a \in {0, 1}, r \in {"0", "2"}, ps \in (IF Big THEN {"1", "1/2", "1/8"} ELSE {"1/2", "1/8"}), pi \in (IF Big THEN {"1", "1/2"} ELSE {"1/2"})}
Init == log = <<>>
Next == Len(log) < MaxLen /\ \E rd \in Rounds : log' = Append(log, rd)
OK == Len(log) >= 2
D == "1/10"
Lams(e) == IF e \in {"sg-ipw", "sg-dr"} THEN {"0", "1/2", "1"} ELSE {"0", "1", "2", "inf"}
NoBias(e) == IF e \in {"sg-ipw", "sg-dr"} THEN "0" ELSE "inf"
UnbiasedCandidate == OK => \A e \in TunedEstimators : REq(Bias(e, NoBias(e), log), 0)
UpperBoundAboveDirect == OK => \A e \in TunedEstimators : \A l \in Lams(e) : RLe(MseScore(e, l, log, FALSE, D), MseScore(e, l, log, TRUE, D))
SlackShrinksWithDelta == OK => RLe(BiasSlack(log, "1/2"), BiasSlack(log, "1/10"))
WidthNonNegative == OK => \A e \in TunedEstimators : \A l \in Lams(e) : RLe("0", Candidate(e, l, log, D).w) /\ RFin(MseScore(e, l, log, TRUE, D))
\* bias of a clipped candidate is exactly the distance to the unclipped estimate
BiasIsDistance == OK => \A e \in TunedEstimators : \A l \in Lams(e) :
   RNear(Bias(e, l, log), RAbs(RSub(Value(e, NoBias(e), log), Value(e, l, log))), "1/1000000000000")
PermutationInvariant == OK => \A e \in TunedEstimators : \A l \in Lams(e) : REq(MseScore(e, l, Reverse(log), TRUE, D), MseScore(e, l, log, TRUE, D))
SortedCands(e) == SetToSortSeq({Candidate(e, l, log, D) : l \in Lams(e)}, LAMBDA x, y : RLt(y.w, x.w))
SlopeConsistent == OK => \A e \in TunedEstimators : LET t == RSeq(SortedCands(e)) IN SlopeMay(t, SlopeIndex(t), "1/1000000000")
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == OK => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
