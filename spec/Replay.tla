-------------------------------- MODULE Replay --------------------------------
(***************************************************************************)
(* Replay of a log against an online policy.  Round k of the log: action a,*)
(* position p, reward r, context ctx.  The policy selects a list of        *)
(* distinct actions from what it has learnt so far; it learns the round    *)
(* iff its choice at the logged position is the logged action.             *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Matches(rd, sel) == sel[rd.p + 1] = rd.a
Learnt(rd) == [a |-> rd.a, r |-> rd.r, ctx |-> rd.ctx]
StepReplay(st, rd, sel) ==
  [k |-> st.k + 1, sels |-> Append(st.sels, sel),
   learnt |-> IF Matches(rd, sel) THEN Append(st.learnt, Learnt(rd)) ELSE st.learnt]
Start == [k |-> 0, sels |-> <<>>, learnt |-> <<>>]
(* replay-method value of the selections: mean reward over matched rounds *)
ReplayValue(st) == IF st.learnt = <<>> THEN "0"
  ELSE RDiv(RSum([i \in 1 .. Len(st.learnt) |-> st.learnt[i].r]), Len(st.learnt))
=============================================================================
