---------------------------- MODULE MC_Contextual ----------------------------
(* The incremental machine (running and committed inverse Gram matrices,      *)
(* rank-one updates) refines the ridge definition in exact arithmetic.        *)
EXTENDS Contextual, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxB, Dim
VARIABLES b, ops, tmp, com, trial
Ctxs == IF Dim = 1 THEN {<<"1">>, <<"2">>} ELSE {<<"1", "0">>, <<"1", "-1">>, <<"1/2", "2">>}
K == 2
Fresh == [a \in 0 .. K - 1 |-> [ainv |-> Ident(Dim), bv |-> ZeroVec(Dim)]]
Init == b \in 1 .. MaxB /\ ops = <<>> /\ tmp = Fresh /\ com = Fresh /\ trial = 0
Update == \E a \in 0 .. K - 1, r \in {"0", "1"}, x \in Ctxs :
  /\ trial' = trial + 1
  /\ tmp' = [tmp EXCEPT ![a] = [ainv |-> Sherman(@.ainv, x), bv |-> VAdd(@.bv, VScale(r, x))]]
  /\ com' = IF (trial + 1) % b = 0 THEN tmp' ELSE com
  /\ ops' = Append(ops, [op |-> "update", a |-> a, r |-> r, x |-> x]) /\ UNCHANGED b
Reset == trial > 0 /\ trial' = 0 /\ tmp' = Fresh /\ com' = Fresh /\ ops' = Append(ops, [op |-> "init", a |-> 0, r |-> "0", x |-> <<>>]) /\ UNCHANGED b
Select == /\ ops # <<>> => ops[Len(ops)].op # "select"
          /\ \E x \in Ctxs : ops' = Append(ops, [op |-> "select", a |-> 0, r |-> "0", x |-> x]) /\ UNCHANGED <<b, tmp, com, trial>>
Next == Len(ops) < MaxOps /\ (Update \/ Reset \/ Select)
RECURSIVE Hist(_, _)
Hist(s, h) == IF s = <<>> THEN h
  ELSE Hist(Tail(s), IF s[1].op = "init" THEN <<>> ELSE IF s[1].op = "update" THEN Append(h, s[1]) ELSE h)
H == Hist(ops, <<>>)
Refines == \A a \in 0 .. K - 1 : LET ps == Pairs(Committed(H, b), a) IN
   /\ MMul(com[a].ainv, Gram(ps, Dim)) = Ident(Dim)
   /\ MVec(com[a].ainv, com[a].bv) = Theta(ps, Dim)
WidthShrinks == \A a \in 0 .. K - 1 : \A x \in Ctxs :
   RLe(Width2(Pairs(H, a), Dim, x), RDot(x, x))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(ops) = MaxOps => Serialize(ToJson([b |-> b, ops |-> ops, d |-> Dim]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
