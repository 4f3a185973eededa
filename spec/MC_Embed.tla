------------------------------ MODULE MC_Embed ------------------------------
(* Every pair of policies over 3 actions and every embedding table in 2       *)
(* dimensions of 2 categories from a small grid; the log grows afterwards.    *)
EXTENDS Embed, TLC, Json, IOUtils
CONSTANTS MaxLen, Big
VARIABLES pea, pi, pb, log
Pols == IF Big THEN {<<"1/2", "1/4", "1/4">>, <<"1", "0", "0">>, <<"0", "1/2", "1/2">>, <<"1/8", "1/8", "3/4">>}
        ELSE {<<"1/2", "1/4", "1/4">>, <<"0", "1/2", "1/2">>, <<"0", "0", "1">>}
Full == {<<"1/2", "1/4", "1/4">>, <<"1/8", "1/8", "3/4">>}
Rows == {"1", "0", "1/4"}     \* probability of category 0
Tab(t) == [a \in 1 .. 3 |-> <<<<t[a][1], t[a][2]>>, <<RSub(1, t[a][1]), RSub(1, t[a][2])>>>>]
Emb == {e \in [1 .. 2 -> {0, 1}] : TRUE}
Init == /\ pi \in Pols /\ pb \in Full /\ log = <<>>
        /\ \E t \in (IF Big THEN [1 .. 3 -> Rows \X Rows] ELSE {<<<<"1", "1">>, <<"1", "0">>, <<"0", "1">>>>, <<<<"1", "1">>, <<"1", "1">>, <<"1", "1">>>>,
             <<<<"1/4", "1">>, <<"1", "1/4">>, <<"0", "0">>>>, <<<<"1/4", "1/4">>, <<"1/2", "3/4">>, <<"1/8", "0">>>>}) : pea = Tab(t)
S2 == {1, 2}
Possible(a, e) == RLt(0, PE(pea, e, S2, a))
Rd(a, e, r) == [a |-> a - 1, p |-> 0, r |-> r, e |-> e, x |-> <<"1">>, pi |-> [k \in 1 .. 3 |-> <<pi[k]>>], pb |-> [k \in 1 .. 3 |-> <<pb[k]>>]]
Next == /\ Len(log) < MaxLen
        /\ \E a \in 1 .. 3, e \in Emb, r \in {"1", "2"} : Possible(a, e) /\ log' = Append(log, Rd(a, e, r))
        /\ UNCHANGED <<pea, pi, pb>>
Wof(e, S) == TrueW(pea, S, Rd(1, e, "0"))
Reach(e) == RLt(0, Induced(pea, e, S2, pb))
RewardOf(e) == RAdd(e[1], RMul(3, e[2]))
(* weighting by the induced ratio is unbiased for rewards that depend on the embedding *)
Unbiased == REq(RSum([k \in 1 .. 12 |-> LET a == ((k - 1) % 3) + 1
                                            e == <<((k - 1) \div 3) % 2, (k - 1) \div 6>> IN
               IF ~Reach(e) THEN "0" ELSE RMul(RMul(pb[a], PE(pea, e, S2, a)), RMul(Wof(e, S2), RewardOf(e)))]),
            RSum([k \in 1 .. 12 |-> LET a == ((k - 1) % 3) + 1
                                        e == <<((k - 1) \div 3) % 2, (k - 1) \div 6>> IN
               RMul(RMul(pi[a], PE(pea, e, S2, a)), RewardOf(e))]))
MeanWeightIsOne == \A S \in {{1}, {2}, {1, 2}} : REq(RSum([k \in 1 .. 4 |-> LET e == <<(k - 1) % 2, (k - 1) \div 2>> IN
               IF ~RLt(0, Induced(pea, e, S, pb)) \/ (1 \notin S /\ e[1] = 1) \/ (2 \notin S /\ e[2] = 1) THEN "0" ELSE RMul(Induced(pea, e, S, pb), Wof(e, S))]), 1)
(* an embedding that identifies the action reduces the weights to importance weights *)
Identifying == \A a \in 1 .. 3, e \in Emb : (Possible(a, e) /\ \A b \in 1 .. 3 : b # a => ~Possible(b, e)) => REq(Wof(e, S2), RDiv(pi[a], pb[a]))
Uninformative == (\A a, b \in 1 .. 3 : pea[a] = pea[b]) => \A e \in Emb : Possible(1, e) => REq(Wof(e, S2), 1)
OnPolicy == pi = pb => \A e \in Emb : Reach(e) => REq(Wof(e, S2), 1)
SelfNormalisedInRange == log # <<>> /\ ~REq(EMean(WE(log, pea, S2)), 0) => RLe(1, Theta(TRUE, log, pea, S2)) /\ RLe(Theta(TRUE, log, pea, S2), 2)
SelectionInRange == Len(log) >= 2 => \A m \in {"exact", "greedy"} :
   LET tab == Table(FALSE, log, pea, 2, 1, "1/20") IN Selected(m, tab, 2, 1).S \in {{1}, {2}, {1, 2}} /\ Selected(m, tab, 2, 2).S = S2
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(log) >= 1 => Serialize(ToJson([log |-> log, pea |-> pea]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
