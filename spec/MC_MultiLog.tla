---------------------------- MODULE MC_MultiLog ----------------------------
EXTENDS MultiLog, TLC, Json, IOUtils
CONSTANTS MaxLen, Big
VARIABLE log
Rounds == {[a |-> a, p |-> 0, r |-> r, ps |-> ps, pi |-> <<<<"3/4">>, <<"1/4">>>>, q |-> <<<<qq[1]>>, <<qq[2]>>>>, pa |-> pa, k |-> k] :
   a \in {0, 1}, r \in (IF Big THEN {"0", "1", "2"} ELSE {"0", "1"}), ps \in {"1/2", "1/4"}, pa \in (IF Big THEN {"1/2", "3/8"} ELSE {"3/8"}),
   k \in {0, 2}, qq \in {<<"1", "1/2">>}}
Init == log = <<>>
Next == Len(log) < MaxLen /\ \E rd \in Rounds : log' = Append(log, rd)
NE == log # <<>>
Lams == {"1", "inf"}
V(e, l) == MValue(e, l, log)
Relabel(f) == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.k = f[log[i].k]]]
LabelInvariant == NE => \A e \in MultiEstimators : REq(MValue(e, "inf", Relabel(0 :> 7 @@ 2 :> 1)), V(e, "inf"))
PermutationInvariant == NE => \A e \in MultiEstimators : REq(MValue(e, "1", Reverse(log)), V(e, "1"))
SingleStratumIsNaive == NE /\ Cardinality(Labels(log)) = 1 => \A l \in Lams :
   REq(V("multi_weighted_ipw", l), V("multi_ipw", l)) /\ REq(V("multi_weighted_dr", l), V("multi_dr", l))
WeightsAverageToOne == NE => \A e \in {"multi_weighted_ipw", "multi_weighted_dr"} :
   LET st == Strata(log, Plain(e, "inf", log))
       w == StratumWeights(Len(log), st)
   IN REq(RSum([j \in 1 .. Len(st) |-> RMul(w[j], st[j].n)]), Len(log))
ConvexCombination == NE => \A e \in {"multi_weighted_ipw", "multi_weighted_dr"}, l \in Lams :
   LET st == Strata(log, Plain(e, l, log)) IN RLe(HullMin(st), V(e, l)) /\ RLe(V(e, l), HullMax(st))
ZeroModelIsIpw == NE => LET z == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.q = <<<<"0">>, <<"0">>>>]] IN
   \A l \in Lams : REq(MValue("multi_dr", l, z), V("multi_ipw", l)) /\ REq(MValue("multi_bal_dr", l, z), V("multi_bal_ipw", l))
                   /\ REq(MValue("multi_weighted_dr", l, z), V("multi_weighted_ipw", l))
PerfectModelIsDM == NE =>
   LET z == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.q = [log[i].q EXCEPT ![log[i].a + 1] = <<log[i].r>>]]]
       dm == Mean([i \in 1 .. Len(z) |-> Dm(z[i])])
   IN \A e \in {"multi_dr", "multi_bal_dr"}, l \in Lams : REq(MValue(e, l, z), dm)
SamePropensityIsNaive == NE => LET z == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.pa = log[i].ps]] IN
   REq(MValue("multi_bal_ipw", "1", z), V("multi_ipw", "1")) /\ REq(MValue("multi_bal_dr", "inf", z), V("multi_dr", "inf"))
Finite == NE => \A e \in MultiEstimators, l \in Lams : RFin(V(e, l))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == NE => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
