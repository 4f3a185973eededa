------------------------------ MODULE MC_Slope ------------------------------
(* The scanning loop of SLOPE++ as a state machine, against its declarative   *)
(* definition, on every table of at most N candidates over a small grid.      *)
EXTENDS Tuning, TLC
CONSTANTS N, Thetas, Ws
VARIABLES tab, i, acc, pc
vars == <<tab, i, acc, pc>>
Rows == {[theta |-> RDiv(th, 2), w |-> RDiv(w, 2)] : th \in Thetas, w \in Ws}
Desc(t) == \A a \in 1 .. Len(t) - 1 : RLe(t[a + 1].w, t[a].w)
Init == /\ tab \in UNION {[1 .. k -> Rows] : k \in 1 .. N} /\ Desc(tab)
        /\ i = 1 /\ acc = <<>> /\ pc = "scan"
Scan == /\ pc = "scan" /\ i <= Len(tab)
        /\ IF \A j \in 1 .. Len(acc) : Compat(tab[i], acc[j])
           THEN acc' = Append(acc, tab[i]) /\ i' = i + 1 /\ UNCHANGED <<tab, pc>>
           ELSE pc' = "done" /\ UNCHANGED <<tab, i, acc>>
Stop == pc = "scan" /\ i > Len(tab) /\ pc' = "done" /\ UNCHANGED <<tab, i, acc>>
Next == Scan \/ Stop
Sel == Len(acc)
LoopIsDefinition == pc = "done" => Sel = SlopeIndex(tab)
AlwaysSelects == pc = "done" => Sel >= 1
AcceptedOverlap == \A a \in 1 .. Len(acc) : \A b \in 1 .. a - 1 : Compat(acc[a], acc[b])
\* agreement of all estimates lets the narrowest interval win
AgreementPicksNarrowest == pc = "done" /\ (\A a \in 1 .. Len(tab) : tab[a].theta = tab[1].theta) => Sel = Len(tab)
\* the judge used on the implementation accepts the scan's answer and, without ties or slack, nothing else
JudgeSound == pc = "done" => SlopeMay(tab, Sel, "0") /\ SlopeMay(tab, Sel, "1/1000000")
Strict == \A a, b \in 1 .. Len(tab) : a # b => tab[a].w # tab[b].w
NoEdge == \A a, b \in 1 .. Len(tab) : ~REq(Reach(tab[a], tab[b]), RAbs(RSub(tab[a].theta, tab[b].theta)))
JudgeComplete == pc = "done" /\ Strict /\ NoEdge => \A s \in 1 .. Len(tab) : SlopeMay(tab, s, "0") => s = Sel
\* the chosen estimate is as close to the (unknown) target as the published guarantee says:
\* if the target lies in every interval of some prefix, that prefix is accepted
Covers(t, th) == RLe(RAbs(RSub(t.theta, th)), t.w)
PrefixCovered == pc = "done" => \A k \in 1 .. Len(tab), x \in Thetas :
   ((\A a \in 1 .. k : Covers(tab[a], RDiv(x, 2))) => Sel >= k)
Termination == <>(pc = "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
