---------------------------- MODULE MC_SlateReg ----------------------------
(* Backward fitting on every small slate log: slots are fitted last to first, *)
(* each with the parameters the later ones ended up with.                     *)
EXTENDS SlateReg, TLC, Json, IOUtils
CONSTANTS MaxSlates, L, Rs, Ds
VARIABLES log, slot, pars, targets
vars == <<log, slot, pars, targets>>
Slate(i, as, rs, ds) == [x |-> <<RDiv(i, 2)>>, a |-> as, r |-> rs, cb |-> [l \in 1 .. L |-> RDiv("1", 2 ^ l)], ce |-> [l \in 1 .. L |-> RDiv("1", l)],
                         d |-> [l \in 1 .. L |-> <<ds[l], RSub("1", ds[l])>>]]
Init == /\ \E n \in 1 .. MaxSlates : \E as \in [1 .. n -> [1 .. L -> {0, 1}]], rs \in [1 .. n -> [1 .. L -> Rs]], ds \in [1 .. n -> [1 .. L -> Ds]] :
              log = [i \in 1 .. n |-> Slate(i, as[i], rs[i], ds[i])]
        /\ slot = L /\ pars = <<>> /\ targets = <<>>
Choices == {[b |-> b, c |-> c] : b \in {"0", "3"}, c \in {"0", "2"}}
Params(ch, l) == [b |-> ch.b, c |-> [j \in 1 .. l + 1 |-> IF j = l + 1 THEN ch.c ELSE "0"]]
Fit == /\ slot >= 1
       /\ targets' = Append(targets, [i \in 1 .. Len(log) |-> Target(log[i], slot, IF pars = <<>> THEN [b |-> "0", c |-> <<>>] ELSE pars[Len(pars)])])
       /\ \E ch \in Choices : pars' = Append(pars, Params(ch, slot))
       /\ slot' = slot - 1 /\ UNCHANGED log
Next == Fit
LastSlotIsReward == targets # <<>> => \A i \in 1 .. Len(log) : targets[1][i] = log[i].r[L]
\* the continuation lies between the least and the greatest next-slot prediction, and is it when the policy is deterministic
Bounded == \A k \in 2 .. Len(targets) : \A i \in 1 .. Len(log) :
   LET l == L - k + 1
       cont == RSub(targets[k][i], log[i].r[l])
       v == [a \in {0, 1} |-> QValue(pars[k - 1], log[i], l + 1, a)]
   IN /\ RLe(RMin(v[0], v[1]), cont) /\ RLe(cont, RMax(v[0], v[1]))
      /\ \A a \in {0, 1} : log[i].d[l + 1][a + 1] = "1" => REq(cont, v[a])
\* a constant next model shifts the target by that constant
Constant == \A k \in 2 .. Len(targets) : (\A j \in 1 .. Len(pars[k - 1].c) : pars[k - 1].c[j] = "0") => \A i \in 1 .. Len(log) : REq(targets[k][i], RAdd(log[i].r[L - k + 1], pars[k - 1].b))
Backwards == Len(pars) = L - slot
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == slot = L => Serialize(ToJson(log) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
