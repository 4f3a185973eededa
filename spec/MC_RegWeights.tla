---------------------------- MODULE MC_RegWeights ----------------------------
(* Training rows of the reward regression on every small log.                 *)
EXTENDS Nuisance, TLC, Json, IOUtils
CONSTANTS MaxLen, Pss, Pis, Rs
VARIABLE log
Methods == {"normal", "iw", "mrdr"}
Emb == <<<<"1", "0">>, <<"0", "1">>>>
\* the context identifies the round
Rd(i, a, p, r, ps, pi) == [x |-> <<RDiv(i, 4)>>, a |-> a, p |-> p, r |-> r, ps |-> ps, pi |-> <<<<pi, "1/2">>, <<RSub("1", pi), "1/2">>>>]
Init == log = <<>>
Next == Len(log) < MaxLen /\ \E a \in {0, 1}, p \in {0, 1}, r \in Rs, ps \in Pss, pi \in Pis : log' = Append(log, Rd(Len(log) + 1, a, p, r, ps, pi))
\* every round is a training row of exactly one position's model
Once == \A i \in Rounds(log) : Cardinality({p \in {0, 1} : \E w \in RegRows(log, Emb, "normal", Rounds(log), p) : w.r = i}) = 1
NonNegative == \A m \in Methods : \A i \in Rounds(log) : RLe("0", RegWeight(m, log[i])) /\ RFin(RegWeight(m, log[i]))
ZeroWeight == \A i \in Rounds(log) : LET rd == log[i] IN
   /\ REq(RegWeight("iw", rd), "0") <=> REq(rd.pi[rd.a + 1][rd.p + 1], "0")
   /\ REq(RegWeight("mrdr", rd), "0") <=> (REq(rd.pi[rd.a + 1][rd.p + 1], "0") \/ REq(rd.ps, "1"))
OnPolicy == \A i \in Rounds(log) : LET rd == log[i] IN REq(rd.pi[rd.a + 1][rd.p + 1], rd.ps) => REq(RegWeight("iw", rd), "1")
\* mrdr is the importance weight scaled by the odds against the logged action
Related == \A i \in Rounds(log) : REq(RegWeight("mrdr", log[i]), RMul(RegWeight("iw", log[i]), RDiv(RSub("1", log[i].ps), log[i].ps)))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == (\A p \in {0, 1} : \E i \in Rounds(log) : log[i].p = p) => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
