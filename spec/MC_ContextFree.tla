--------------------------- MODULE MC_ContextFree ---------------------------
(* The counting machine (running and committed counters) refines the          *)
(* history definition; all histories of updates, selections and resets.       *)
EXTENDS ContextFree, TLC, Json, IOUtils
CONSTANTS K, MaxOps, MaxB
VARIABLES b, ops, trial, tmpN, tmpR, comN, comR
vars == <<b, ops, trial, tmpN, tmpR, comN, comR>>
Zero == [a \in Actions(K) |-> 0]
Init == b \in 1 .. MaxB /\ ops = <<>> /\ trial = 0 /\ tmpN = Zero /\ tmpR = Zero /\ comN = Zero /\ comR = Zero
Update == \E a \in Actions(K), r \in {0, 1} :
  /\ trial' = trial + 1 /\ tmpN' = [tmpN EXCEPT ![a] = @ + 1] /\ tmpR' = [tmpR EXCEPT ![a] = @ + r]
  /\ IF (trial + 1) % b = 0 THEN comN' = tmpN' /\ comR' = tmpR' ELSE UNCHANGED <<comN, comR>>
  /\ ops' = Append(ops, [op |-> "update", a |-> a, r |-> ToString(r)]) /\ UNCHANGED b
Select == /\ ops # <<>> => ops[Len(ops)].op # "select"
          /\ ops' = Append(ops, [op |-> "select", a |-> 0, r |-> "0"]) /\ UNCHANGED <<b, trial, tmpN, tmpR, comN, comR>>
Reset == /\ trial > 0 /\ trial' = 0 /\ tmpN' = Zero /\ tmpR' = Zero /\ comN' = Zero /\ comR' = Zero
         /\ ops' = Append(ops, [op |-> "init", a |-> 0, r |-> "0"]) /\ UNCHANGED b
Next == Len(ops) < MaxOps /\ (Update \/ Select \/ Reset)
RECURSIVE Hist(_, _)
Hist(s, h) == IF s = <<>> THEN h
  ELSE Hist(Tail(s), IF s[1].op = "init" THEN <<>> ELSE IF s[1].op = "update" THEN Append(h, s[1]) ELSE h)
H == Hist(ops, <<>>)
Refines == /\ trial = Len(H)
           /\ \A a \in Actions(K) : comN[a] = Count(Committed(H, b), a) /\ REq(comR[a], Reward(Committed(H, b), a))
CommittedBehind == trial - b < FoldLeft(LAMBDA x, y : x + y, 0, [i \in 1 .. K |-> comN[i - 1]])
WinProbsComplement == \A a1, b1, a2, b2 \in 1 .. 3 : REq(RAdd(WinProb(a1, b1, a2, b2), WinProb(a2, b2, a1, b1)), 1)
ASSUME WinProbsComplement
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(ops) = MaxOps => Serialize(ToJson([b |-> b, ops |-> ops]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
