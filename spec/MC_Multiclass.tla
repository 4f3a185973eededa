---------------------------- MODULE MC_Multiclass ----------------------------
(* Every labelling of N samples over an awkward alphabet, every split, every  *)
(* behaviour classifier, deficiency and logged actions.                       *)
EXTENDS Multiclass, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Alphabet, Alphas
VARIABLES y, phase, ev, pred, alpha, dead, acts
vars == <<y, phase, ev, pred, alpha, dead, acts>>
K == NClasses(y)
Init == /\ y \in [1 .. N -> Alphabet] /\ NClasses(y) >= 2
        /\ phase = "new" /\ ev = <<>> /\ pred = <<>> /\ alpha = "0" /\ dead = <<>> /\ acts = <<>>
Split == /\ phase = "new" /\ phase' = "split"
         /\ \E s \in SUBSET (1 .. N) : s # {} /\ s # 1 .. N /\ Cardinality(s) <= 2 /\ ev' = SetToSeq(s)
         /\ UNCHANGED <<y, pred, alpha, dead, acts>>
Fit == /\ phase = "split" /\ phase' = "fit"
       /\ pred' \in [1 .. Len(ev) -> 0 .. K - 1] /\ alpha' \in Alphas
       /\ \E nd \in {0, 1} : dead' \in [1 .. Len(ev) -> {d \in SUBSET (0 .. K - 1) : Cardinality(d) = nd}]
       /\ UNCHANGED <<y, ev, acts>>
Row(k) == DeficientRow(PolicyRow(alpha, pred[k], K), dead[k])
Log == /\ phase = "fit" /\ phase' = "logged"
       /\ acts' \in [1 .. Len(ev) -> 0 .. K - 1] /\ \A k \in 1 .. Len(ev) : RLt(0, Row(k)[acts'[k] + 1])
       /\ UNCHANGED <<y, ev, pred, alpha, dead>>
Next == Split \/ Fit \/ Log
Proper == phase \in {"fit", "logged"} => \A k \in 1 .. Len(ev) :
   /\ REq(RSum(Row(k)), 1) /\ \A a \in 1 .. K : RLe(0, Row(k)[a])
   /\ {a \in 1 .. K : REq(Row(k)[a], 0)} = {d + 1 : d \in dead[k]}
   /\ \A a \in 1 .. K : (a - 1) \notin dead[k] /\ pred[k] \notin dead[k] => RLe(Row(k)[a], Row(k)[pred[k] + 1])
Dense == {ClassOf(y, i) : i \in 1 .. N} = 0 .. K - 1
TrueClassValueOne == phase # "new" => REq(TrueValue(y, ev, [k \in 1 .. Len(ev) |-> [a \in 1 .. K |-> RewardOf(y, ev[k], a - 1)]]), 1)
UniformValue == phase # "new" => REq(TrueValue(y, ev, [k \in 1 .. Len(ev) |-> [a \in 1 .. K |-> RDiv(1, K)]]), RDiv(1, K))
LoggedSupported == phase = "logged" => \A k \in 1 .. Len(ev) : acts[k] \notin dead[k]
(* expected reward of the logging policy = its ground-truth value *)
RewardUnbiased == phase = "fit" => REq(TrueValue(y, ev, [k \in 1 .. Len(ev) |-> Row(k)]),
   RDiv(RSum([k \in 1 .. Len(ev) |-> RSum([a \in 1 .. K |-> RMul(Row(k)[a], RewardOf(y, ev[k], a - 1))])]), Len(ev)))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == phase = "fit" /\ (\A k \in 1 .. Len(ev) : Cardinality(dead[k]) = Cardinality(dead[1]) /\ (dead[k] = {} \/ dead[k] = {0})) =>
  Serialize(ToJson([y |-> y, nev |-> Len(ev), pred |-> pred, alpha |-> alpha, nd |-> Cardinality(dead[1])]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
