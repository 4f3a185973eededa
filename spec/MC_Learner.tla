---------------------------- MODULE MC_Learner ----------------------------
(* A learner over its life: logged rounds arrive, the learner is (re)fitted   *)
(* on the log so far, and a ranking is drawn action by action from the scores *)
(* of the last fit.  The scores stand for what the base models answer.        *)
EXTENDS Learner, TLC, Json, IOUtils
CONSTANTS MaxLen, MaxFits, K, L, Pss, Rs, Scores, Taus
VARIABLES log, trained, fits, score, tau, rank, pr
vars == <<log, trained, fits, score, tau, rank, pr>>
Acts == 0 .. K - 1
Pos == 0 .. L - 1
Init == /\ log = <<>> /\ trained = [p \in Pos |-> {}] /\ fits = 0
        /\ score = [a \in 1 .. K |-> "0"] /\ tau = "1" /\ rank = <<>> /\ pr = "1"
Log == /\ Len(log) < MaxLen /\ rank = <<>>
       /\ \E a \in Acts, p \in Pos, r \in Rs, ps \in Pss : log' = Append(log, [x |-> <<RDiv(Len(log) + 1, 4)>>, a |-> a, p |-> p, r |-> r, ps |-> ps])
       /\ UNCHANGED <<trained, fits, score, tau, rank, pr>>
OneLog == Len(log) = L /\ \A i \in 1 .. L : log[i].a = 0 /\ log[i].p = i - 1 /\ log[i].r = log[1].r /\ log[i].ps = log[1].ps
Trainable == \A p \in Pos : \E i \in Rounds(log) : log[i].p = p
Fit == /\ fits < MaxFits /\ Trainable /\ rank = <<>>
       /\ trained' = [p \in Pos |-> IpwRows(log, p)]
       /\ fits' = fits + 1
       \* the base models may answer anything: explored from one log, as ranking only sees the scores
       /\ score' \in (IF OneLog THEN [1 .. K -> Scores] ELSE {score})
       /\ UNCHANGED <<log, tau, rank, pr>>
\* draw the next action of a ranking
Draw == /\ fits > 0 /\ OneLog /\ Len(rank) < K
        /\ tau' \in (IF rank = <<>> THEN Taus ELSE {tau})
        /\ \E a \in (1 .. K) \ Ranked(rank) : rank' = Append(rank, a) /\ pr' = RMul(pr, NextProbs(score, tau', rank)[a])
        /\ UNCHANGED <<log, trained, fits, score>>
Next == Log \/ Fit \/ Draw
\* ------------------------------------------------------------------ training
NoRoundTwice == \A p, q \in Pos : p # q => {w.r : w \in trained[p]} \cap {w.r : w \in trained[q]} = {}
OwnRounds == \A p \in Pos : \A w \in trained[p] : log[w.r].p = p /\ log[w.r].a = w.y /\ REq(RMul(w.w, log[w.r].ps), log[w.r].r)
\* a refit forgets nothing of the log it is given and keeps nothing else
Whole == fits > 0 => \A i, j \in Rounds(log) : (\E p \in Pos : \E w \in trained[p] : w.r = j) /\ i < j => \E p \in Pos : \E w \in trained[p] : w.r = i
\* ------------------------------------------------------------------ ranking
NoRepeats == Cardinality(Ranked(rank)) = Len(rank)
ClosedForm == REq(pr, RankProb(score, tau, rank))
FirstIsSoftmax == Len(rank) = 1 => RNear(pr, SoftmaxAt(score, tau)[rank[1]], "1/1000000000000")
Perms == {f \in [1 .. K -> 1 .. K] : \A i, j \in 1 .. K : i # j => f[i] # f[j]}
RECURSIVE SumSet(_, _)
SumSet(S, t) == IF S = {} THEN "0" ELSE LET f == CHOOSE g \in S : TRUE IN RAdd(RankProb(score, t, f), SumSet(S \ {f}, t))
TotalOne == (rank = <<>> /\ fits > 0) => \A t \in Taus : RNear(SumSet(Perms, t), "1", "1/1000000000000")
\* the most likely complete ranking sorts the scores
Sorted(f) == \A i \in 1 .. K - 1 : RLe(score[f[i + 1]], score[f[i]])
ModeSorts == Len(rank) = K => (Sorted(rank) => \A f \in Perms : RLe(RankProb(score, tau, f), RMul(pr, "1000000000001/1000000000000")))
\* cold: once the gaps exceed 60 temperatures only the sorted ranking is left
Cold == (Len(rank) = K /\ \A a, b \in 1 .. K : a # b => RLe(RMul(60, tau), RAbs(RSub(score[a], score[b])))) => (Sorted(rank) <=> RLt("1/2", pr))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == (rank = <<>> /\ fits = 0 /\ Trainable) => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
