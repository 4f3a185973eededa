---------------------------- MODULE MC_SynthLog ----------------------------
(* Every small configuration: logits, inverse temperatures, deficient actions, *)
(* strata ratios, logged actions; the generating distribution is enumerated.   *)
EXTENDS SynthLog, TLC, Json, IOUtils
CONSTANTS K, LogitSet, Betas, Rhos, MaxN
VARIABLES phase, lg, betas, rhos, n, S, stratum, act
vars == <<phase, lg, betas, rhos, n, S, stratum, act>>
Init == /\ phase = "conf" /\ lg \in [1 .. K -> LogitSet]
        /\ \E L \in 1 .. 2 : betas \in [1 .. L -> Betas] /\ rhos \in [1 .. L -> Rhos]
        /\ RLt(0, RSum(rhos)) /\ n \in 1 .. MaxN /\ S = {} /\ stratum = 0 /\ act = 0
Support == /\ phase = "conf" /\ phase' = "support" /\ S' \in (SUBSET (1 .. K)) \ {{}}
           /\ UNCHANGED <<lg, betas, rhos, n, stratum, act>>
Stratum == /\ phase = "support" /\ phase' = "stratum" /\ stratum' \in 1 .. Len(betas) /\ RLt(0, rhos[stratum'])
           /\ UNCHANGED <<lg, betas, rhos, n, S, act>>
Log == /\ phase = "stratum" /\ phase' = "logged" /\ act' \in S
       /\ UNCHANGED <<lg, betas, rhos, n, S, stratum>>
Next == Support \/ Stratum \/ Log
Row == Softmax(lg, betas[stratum], S)
Mix == Mixture(lg, betas, rhos, S)
Eps == "1/1000000000000"
Proper == phase \in {"stratum", "logged"} => /\ RNear(RSum(Row), 1, Eps)
   /\ \A a \in 1 .. K : (a \in S <=> RLt(0, Row[a])) /\ RLe(0, Row[a])
Monotone == phase = "stratum" => \A a, b \in S : RLe(lg[a], lg[b]) =>
   IF RLe(0, betas[stratum]) THEN RLe(Row[a], Row[b]) ELSE RLe(Row[b], Row[a])
Shift == phase = "stratum" => \A a \in 1 .. K : RNear(Row[a], Softmax([b \in 1 .. K |-> RAdd(lg[b], 3)], betas[stratum], S)[a], Eps)
Flat == phase = "stratum" /\ REq(betas[stratum], 0) => \A a \in S : RNear(Row[a], RDiv(1, Cardinality(S)), Eps)
MixProper == phase = "support" => /\ RNear(RSum(Mix), 1, Eps) /\ \A a \in 1 .. K : a \in S <=> RLt(0, Mix[a])
(* the mixture is what a round sees before its stratum is known; with one logger it is the logger *)
MixMarginal == phase = "support" => \A a \in 1 .. K : RNear(Mix[a],
   RDiv(RSum([k \in 1 .. Len(betas) |-> RMul(rhos[k], Softmax(lg, betas[k], S)[a])]), RSum(rhos)), Eps)
(* some strata sizes always exist *)
SizesExist == phase = "conf" => \E f \in [1 .. Len(rhos) -> 0 .. n] : SizesOk(f, n, rhos)
TruncUp == phase = "conf" => \A a \in 1 .. K : RLt(0, TruncMeanAt(lg[a], 1)) /\ RLt(lg[a], TruncMeanAt(lg[a], 1))
(* importance weighting with the propensities recovers every policy value supported by S *)
Unbiased == phase = "stratum" => RNear(RSum([a \in 1 .. K |-> IF a \in S THEN RMul(Row[a], RMul(RDiv(RDiv(1, Cardinality(S)), Row[a]), lg[a])) ELSE "0"]),
   PolicyValue(<<lg>>, <<[a \in 1 .. K |-> IF a \in S THEN RDiv(1, Cardinality(S)) ELSE "0"]>>), Eps)
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == phase = "support" =>
  Serialize(ToJson([lg |-> lg, betas |-> betas, rhos |-> rhos, n |-> n, nd |-> K - Cardinality(S)]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
