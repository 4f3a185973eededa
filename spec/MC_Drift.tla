------------------------------- MODULE MC_Drift -------------------------------
(* The request-driven machine (a queue of two anchors, a count of rounds      *)
(* left in the interval) refines the closed form of Drift, whatever the       *)
(* sequence of request sizes.                                                 *)
EXTENDS Drift, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxD, MaxT, Horizon
VARIABLES D, T, seasonal, lo, hi, drawn, left, out, reqs
vars == <<D, T, seasonal, lo, hi, drawn, left, out, reqs>>
Init == /\ D \in 1 .. MaxD /\ T \in 0 .. MaxT /\ seasonal \in BOOLEAN
        /\ lo = 0 /\ hi = 1 /\ drawn = 2 /\ left = D /\ out = <<>> /\ reqs = <<>>
One(l, h, dr, lf) == [lo |-> l, hi |-> h, step |-> IF lf > T THEN 0 ELSE T - lf + 1]
(* serve n rounds *)
RECURSIVE Serve(_, _, _, _, _, _)
Serve(n, l, h, dr, lf, acc) ==
  IF n = 0 THEN [lo |-> l, hi |-> h, drawn |-> dr, left |-> lf, out |-> acc]
  ELSE LET a2 == Append(acc, One(l, h, dr, lf)) IN
       IF lf > 1 THEN Serve(n - 1, l, h, dr, lf - 1, a2)
       ELSE IF seasonal THEN Serve(n - 1, h, l, dr, D, a2)
       ELSE Serve(n - 1, h, dr, dr + 1, D, a2)
Request == \E n \in 1 .. Horizon - Len(out) :
   LET s == Serve(n, lo, hi, drawn, left, <<>>) IN
   /\ lo' = s.lo /\ hi' = s.hi /\ drawn' = s.drawn /\ left' = s.left
   /\ out' = out \o s.out /\ reqs' = Append(reqs, n) /\ UNCHANGED <<D, T, seasonal>>
Next == Len(out) < Horizon /\ Request
Refines == \A i \in 1 .. Len(out) :
   out[i] = [lo |-> Lo(i - 1, D, seasonal), hi |-> Hi(i - 1, D, seasonal), step |-> StepNo(i - 1, D, T)]
SmoothHandOver == \A i \in 1 .. Len(out) - 1 :
   out[i + 1].lo # out[i].lo => out[i + 1].lo = out[i].hi /\ i % D = 0
TwoSeasons == seasonal => \A i \in 1 .. Len(out) : {out[i].lo, out[i].hi} = {0, 1}
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(out) = Horizon => Serialize(ToJson([D |-> D, T |-> T, seasonal |-> seasonal, reqs |-> reqs]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
