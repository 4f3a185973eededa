------------------------------- MODULE MC_Slate -------------------------------
(* Every slate log reachable by storing slot records one at a time, in any    *)
(* order, for MaxSlates slates of at most two slots (slots may be missing).   *)
(* A slate's user story (ratios, rewards, actions) is chosen when its first   *)
(* slot is stored and kept in Story; rows only ever reveal more of it.        *)
EXTENDS Slate, TLC, Json, IOUtils, SequencesExt
CONSTANTS NSl, MaxRows
VARIABLES log, story

Ratio1 == {"0", "2"}          \* ratio of the first slot
Rew == {"0", "1"}
Stories == {[e1 |-> e1, e2 |-> e2, r1 |-> r1, r2 |-> r2, a1 |-> a1] :
             e1 \in {"0", "1/2"}, e2 \in {"1/2", "1"}, r1 \in {"1"}, r2 \in Rew, a1 \in {0, 1}}
(* logging policy: 1/2 per slot given prefix; evaluation policy: e1 then e2 *)
RowOf(s, l, st) ==
  LET ce == IF l = 0 THEN st.e1 ELSE RMul(st.e1, st.e2)
      cb == IF l = 0 THEN "1/2" ELSE "1/4"
      a == IF l = 0 THEN st.a1 ELSE 1 - st.a1
      e == IF l = 0 THEN st.e1 ELSE st.e2
  IN [s |-> s, l |-> l, r |-> IF l = 0 THEN st.r1 ELSE st.r2, pb |-> "1/4", pe |-> RMul(st.e1, st.e2),
      ib |-> "1/2", ie |-> IF l = 0 THEN st.e1 ELSE "1/4", cb |-> cb, ce |-> ce, a |-> a,
      q |-> IF l = 0 THEN <<"1", "1/2">> ELSE <<"2", "-1">>,
      d |-> IF a = 0 THEN <<e, RSub(1, e)>> ELSE <<RSub(1, e), e>>]

Init == log = <<>> /\ story \in [0 .. NSl - 1 -> Stories]
Store == Len(log) < MaxRows /\ \E s \in 0 .. NSl - 1, l \in {0, 1} :
          /\ ~\E i \in 1 .. Len(log) : log[i].s = s /\ log[i].l = l
          /\ log' = Append(log, RowOf(s, l, story[s]))
          /\ UNCHANGED story
Next == Store
NonEmpty == log # <<>>
D(e) == SlateDefined(e, log)
V(e) == SlateValue(e, log)
ZeroQ == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.q = <<"0", "0">>]]
OneReward == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.r = "1"]]
Relabel == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.s = 100 - 7 * log[i].s]]
OnPolicy == [i \in 1 .. Len(log) |-> [log[i] EXCEPT !.pe = log[i].pb, !.ie = log[i].ib, !.ce = log[i].cb]]

OrderIrrelevant == NonEmpty => \A e \in SlateEsts : D(e) => REq(SlateValue(e, Reverse(log)), V(e))
LabelsIrrelevant == NonEmpty => \A e \in SlateEsts : D(e) => REq(SlateValue(e, Relabel), V(e))
ZeroQIsRips == NonEmpty => REq(SlateValue("cascade-dr", ZeroQ), V("rips"))
ConstantReward == NonEmpty => \A e \in SelfNorm : D(e) =>
   REq(SlateValue(e, OneReward), RDiv(Len(log), NSlates(log)))
OnPolicyIsMean == NonEmpty => \A e \in {"sips", "iips", "rips", "snsips", "sniips", "snrips"} :
   REq(SlateValue(e, OnPolicy), RDiv(RSum([i \in 1 .. Len(log) |-> log[i].r]), NSlates(log)))
SumOfSlates == NonEmpty => \A e \in SlateEsts : D(e) =>
   LET ss == SetToSeq(Slates(log)) IN
   REq(V(e), RDiv(RSum([k \in 1 .. Len(ss) |-> PerSlate(e, log, ss[k])]), Len(ss)))
Full == \A s \in Slates(log) : \A l \in {0, 1} : \E i \in 1 .. Len(log) : log[i].s = s /\ log[i].l = l
(* telescoping: with Q_l the true reward-to-go, cascade-DR is exact whatever the weights:
   here with Q1 = r1 + sum_a d2*Q2 and Q2 = r2 on every action the value is r1 + r2 of each slate *)
PerfectQ == [i \in 1 .. Len(log) |-> LET st == story[log[i].s] IN
   [log[i] EXCEPT !.q = IF log[i].l = 0 THEN <<RAdd(st.r1, st.r2), RAdd(st.r1, st.r2)>> ELSE <<st.r2, st.r2>>]]
(* reward-to-go bookkeeping: row rewards stay slot rewards, so Q1-Q2 telescopes through the weights *)
Telescopes == NonEmpty /\ Full => REq(SlateValue("cascade-dr", PerfectQ),
   RDiv(RSum([i \in 1 .. Len(log) |-> log[i].r]), NSlates(log)))

Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(log) >= 3 => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
