------------------------------ MODULE MC_Replay ------------------------------
(* All logs of up to MaxLen rounds and all selections of any policy.          *)
EXTENDS Replay, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxLen, K, L
VARIABLES log, st
Rounds == {[a |-> a, p |-> p, r |-> r, ctx |-> <<r, ToString(a)>>] : a \in 0 .. K - 1, p \in 0 .. L - 1, r \in {"0", "1", "3/2"}}
Lists == {s \in [1 .. L -> 0 .. K - 1] : \A i, j \in 1 .. L : i # j => s[i] # s[j]}
Init == log = <<>> /\ st = Start
Next == Len(log) < MaxLen /\ \E rd \in Rounds, sel \in Lists : log' = Append(log, rd) /\ st' = StepReplay(st, rd, sel)
InLogOrder == Len(st.sels) = Len(log) /\ st.k = Len(log) /\ Len(st.learnt) <= Len(log)
MatchedIdx == SelectSeq([i \in 1 .. Len(log) |-> i], LAMBDA i : Matches(log[i], st.sels[i]))
LearntIffMatched == st.learnt = [j \in 1 .. Len(MatchedIdx) |-> Learnt(log[MatchedIdx[j]])]
ValueIsMatchedMean == st.learnt # <<>> =>
   REq(RMul(ReplayValue(st), Len(MatchedIdx)), RSum([j \in 1 .. Len(MatchedIdx) |-> log[MatchedIdx[j]].r]))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(log) = MaxLen => Serialize(ToJson([log |-> log, sels |-> st.sels, K |-> K, L |-> L]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
