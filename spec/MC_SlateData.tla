---------------------------- MODULE MC_SlateData ----------------------------
(* The slate sampler as a state machine: one slot per step.  Every small      *)
(* weight vector, both sampling modes; the click process over all histories.  *)
EXTENDS SlateData, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS K, L, Ws, Qs, As
VARIABLES w, fac, s, prob, qs, att, disc, clicks, cprob
vars == <<w, fac, s, prob, qs, att, disc, clicks, cprob>>
Init == /\ w \in [1 .. K -> Ws] /\ fac \in BOOLEAN /\ s = <<>> /\ prob = "1"
        /\ qs = <<>> /\ att = <<>> /\ disc = "1" /\ clicks = <<>> /\ cprob = "1"
Draw == /\ Len(s) < L
        /\ \E a \in Acts(K) : a \notin (IF fac THEN {} ELSE {s[j] : j \in 1 .. Len(s)})
             /\ s' = Append(s, a)
             /\ prob' = RMul(prob, StepProb(w, IF fac THEN {} ELSE {s[j] : j \in 1 .. Len(s)}, a))
        /\ UNCHANGED <<w, fac, qs, att, disc, clicks, cprob>>
(* the user scans the slots; a click changes the discount of the next slots *)
Scan == /\ Len(s) = L /\ Len(clicks) < L
        /\ \E q \in Qs, a \in As, c \in BOOLEAN :
             LET d == IF clicks # <<>> /\ clicks[Len(clicks)] THEN RMul(disc, a) ELSE disc
                 p == RMul(d, q) IN
             /\ qs' = Append(qs, q) /\ att' = Append(att, a) /\ disc' = d
             /\ clicks' = Append(clicks, c) /\ cprob' = RMul(cprob, IF c THEN p ELSE RSub(1, p))
        /\ UNCHANGED <<w, fac, s, prob>>
Next == Draw \/ (w = [i \in 1 .. K |-> 1] /\ ~fac /\ s = [l \in 1 .. L |-> l - 1] /\ Scan)
ProbIsCascade == REq(prob, Cascade(w, s, Len(s), fac))
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : RAdd(f(x), acc), "0", S)
SlatesNormalised == s = <<>> => REq(Sum(Seqs(K, L, fac), LAMBDA z : SlateProb(w, z, fac)), 1)
PrefixIsSumOfSlates == s # <<>> =>
  REq(Cascade(w, s, Len(s), fac), Sum({z \in Seqs(K, L, fac) : SubSeq(z, 1, Len(s)) = s}, LAMBDA z : SlateProb(w, z, fac)))
SlotMarginals == s = <<>> => \A l \in 1 .. L : \A a \in Acts(K) :
  REq(ItemPos(w, l, a, fac), Sum({z \in Seqs(K, L, fac) : z[l] = a}, LAMBDA z : SlateProb(w, z, fac)))
DistinctUnlessFactorizable == fac \/ \A i, j \in 1 .. Len(s) : i # j => s[i] # s[j]
(* click moments against every click history *)
RECURSIVE Hist(_, _, _, _, _)
Hist(q, at, l, d, prev) == IF l > Len(q) THEN "0" ELSE
  LET dd == IF prev THEN RMul(d, at[l]) ELSE d
      p == RMul(dd, q[l]) IN
  RAdd(RMul(p, RAdd(1, Hist(q, at, l + 1, dd, TRUE))), RMul(RSub(1, p), Hist(q, at, l + 1, dd, FALSE)))
ClickMoments == qs # <<>> => REq(ExpectedClicks(qs, att), Hist(qs, att, 1, "1", FALSE))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(s) = L /\ clicks = <<>> => Serialize(ToJson([w |-> w, fac |-> fac, s |-> s]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
