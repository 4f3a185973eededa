------------------------------ MODULE MC_OpeLog ------------------------------
(* Exhaustive model: every log of at most MaxLen rounds over a small round    *)
(* domain.  The invariants are the relations a user relies on; they are       *)
(* theorems of the estimator definitions, checked in every reachable state.   *)
EXTENDS OpeLog, TLC, Json, IOUtils, FiniteSets, SequencesExt
CONSTANTS MaxLen, Big
VARIABLE log

Pis == {<<"0", "1">>, <<"1/2", "1/2">>, <<"1", "0">>}
Qs == IF Big THEN {<<"0", "0">>, <<"1", "2">>, <<"-1", "1/2">>} ELSE {<<"0", "0">>, <<"1", "2">>}
Rewards == IF Big THEN {"0", "1", "2", "-1"} ELSE {"0", "2"}
Pss == IF Big THEN {"1", "1/2", "1/4"} ELSE {"1/2", "1/4"}
Rounds == {[a |-> a, p |-> 0, r |-> r, ps |-> ps, pi |-> <<<<pi[1]>>, <<pi[2]>>>>,
            q |-> <<<<qq[1]>>, <<qq[2]>>>>, ew |-> RDiv(pi[a + 1], ps)] :
            a \in {0, 1}, r \in Rewards, ps \in Pss, pi \in Pis, qq \in Qs}

Init == log = <<>>
Append1 == Len(log) < MaxLen /\ \E rd \in Rounds : log' = Append(log, rd)
Next == Append1

Lams == {"0", "1/2", "1", "2", "inf"}
LamsSG == {"0", "1/2", "1"}
NonEmpty == log # <<>>
V(e, l) == Value(e, l, log)
D(e, l) == Defined(e, l, log)
Near(x, y) == REq(x, y)
WithQ(qf(_)) == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.q = qf(log[i])]]
ZeroQ == WithQ(LAMBDA rd : <<<<"0">>, <<"0">>>>)
PerfectQ == WithQ(LAMBDA rd : IF rd.a = 0 THEN <<<<rd.r>>, rd.q[2]>> ELSE <<rd.q[1], <<rd.r>>>>)
RewardMin == FoldLeft(LAMBDA x, rd : RMin(x, rd.r), "inf", log)
RewardMax == FoldLeft(LAMBDA x, rd : RMax(x, rd.r), "-inf", log)

UnclippedAtInfinity == NonEmpty =>
   V("ipw", "inf") = Mean([i \in 1 .. Len(log) |-> RMul(log[i].r, W(log[i]))])
ZeroModelIsIPW == NonEmpty =>
   /\ \A l \in Lams : Near(Value("dr", l, ZeroQ), V("ipw", l))
   /\ \A l \in LamsSG : Near(Value("sg-dr", l, ZeroQ), V("sg-ipw", l))
SwitchAtZeroIsDM == NonEmpty => Near(V("switch-dr", "0"), V("dm", "0"))
LimitsOfDR == NonEmpty =>
   /\ Near(V("switch-dr", "inf"), V("dr", "inf")) /\ Near(V("dr-os", "inf"), V("dr", "inf"))
   /\ Near(V("dr-os", "0"), V("dm", "0")) /\ Near(V("sg-dr", "0"), V("dr", "inf"))
   /\ Near(V("sg-ipw", "0"), V("ipw", "inf")) /\ Near(V("dr", "0"), V("dm", "0"))
PerfectModelIsDM == NonEmpty => \A l \in Lams :
   /\ Near(Value("dr", l, PerfectQ), Value("dm", l, PerfectQ))
   /\ Near(Value("switch-dr", l, PerfectQ), Value("dm", l, PerfectQ))
   /\ Near(Value("dr-os", l, PerfectQ), Value("dm", l, PerfectQ))
SelfNormalisedInRange == NonEmpty /\ D("snipw", "inf") =>
   RLe(RewardMin, V("snipw", "inf")) /\ RLe(V("snipw", "inf"), RewardMax)
BalancedIsSNIPW == NonEmpty /\ D("b-ipw", "inf") => Near(V("b-ipw", "inf"), V("snipw", "inf"))
ReplayInRange == NonEmpty => LET v == V("rm", "0") IN
   REq(v, 0) \/ (RLe(RewardMin, v) /\ RLe(v, RewardMax))
NeverNaN == NonEmpty => \A e \in Estimators : \A l \in LamsSG :
   D(e, l) => RFin(V(e, l))
WeightsShrink == \A i \in 1 .. Len(log) : \A l \in Lams :
   LET w == W(log[i]) IN /\ RLe(Clip(w, l), w) /\ RLe(Switch(w, l), w) /\ RLe(Shrink(w, l), w)
                         /\ RLe(0, Shrink(w, l)) /\ RLe(0, Switch(w, l))
PermutationInvariant == Len(log) >= 2 => \A e \in Estimators : \A l \in LamsSG :
   D(e, l) => Near(Value(e, l, Reverse(log)), V(e, l))
DuplicationInvariant == NonEmpty => \A e \in Estimators :
   D(e, "1") => Near(Value(e, "1", log \o log), V(e, "1"))

(* behaviours handed to the conformance driver: every reachable log of the   *)
(* small model, appended to the file OUT (one JSON value per line)           *)
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == NonEmpty => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
